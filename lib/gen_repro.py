"""Contexts in which the same iterations are run"""
PLANS = ["walk", "seq", "pop", "nodes", "walk pop", "late pop", "walk nodes", "pop nodes", "sisa", "walk sisa"]
NETS = ["", "graph", "dict", "er", "ba", "complete", "geo", "words"]


# Options that have nothing to do with the results
EXTRA = {"num_processes": 2, "group": "g", "description": "d", "level": 10, "version": "1"}


def many(rnd):
    """Many iterations, with seeds whose names may be confused"""
    p = {"plan": rnd.choice(["walk", "seq"]), "sched": rnd.choice(["", "pq"]), "net": "", "agents": False}
    seeds = rnd.choice([["1", "11"], ["1", ""], ["2", "1"], ["1_1", "1"], ["0", "00"], ["a", "a1"], ["1", "12"], ["-1", "1"], ["1.0", "1"], ["1", " 1"]])
    contexts = []
    for h in (0, 1, 2):
        rnd.shuffle(seeds)
        contexts.append({"hash": h, "ops": [{"op": "sim", "s": s, "p": 0, "n": rnd.choice([3, 12, 13]), "dump": False, "exp": [], "times": 1, "name": rnd.choice(["x", "1", "x1"])} for s in list(seeds)]})
    return {"cfg": {}, "params": [p], "steps": 1, "contexts": contexts}


def lots(rnd):
    """A great many iterations"""
    p = {"plan": "seq", "sched": rnd.choice(["", "pq"]), "net": "", "agents": False}
    s = rnd.choice(["default", "1", "x"])
    return {"cfg": {}, "params": [p], "steps": 1,
            "contexts": [{"hash": h, "ops": [{"op": "sim", "s": s, "p": 0, "n": 270 if h == 0 else 3, "dump": False, "exp": [], "times": 1, "name": "x"}]} for h in (0, 1, 2)]}


def rand(rnd):
    base = {"plan": rnd.choice(PLANS), "sched": rnd.choice(["", "timed", "pq", "ordered", "shuffled"]), "net": rnd.choice(NETS), "agents": rnd.random() < 0.3}
    ps = [base, dict(base, plan=rnd.choice([p for p in PLANS if p != base["plan"]])),
          {"plan": rnd.choice(PLANS), "sched": rnd.choice(["", "pq"]), "net": rnd.choice(NETS), "agents": False}]
    seeds = rnd.sample(["default", "a", "b", "1", "other", "test_iteration_0", "11"], 2)
    contexts = []
    for h in (0, 1, 2):
        ops = []
        for _ in range(rnd.randint(2, 4)):
            o = rnd.choice(["noise", "direct", "sim", "sim", "sim", "envrun", "soilrun", "again", "matrix"])
            op = {"op": o}
            if o == "noise":
                op["n"] = rnd.randrange(100)
            elif o == "direct":
                op["envs"] = [[rnd.choice(seeds), rnd.randrange(len(ps)), rnd.random() < 0.3] for _ in range(rnd.randint(1, 3))]
            else:
                op.update(s=rnd.choice(seeds), p=rnd.randrange(len(ps)), n=rnd.choice([1, 1, 2, 3]), dump=rnd.random() < 0.15,
                          exp=rnd.sample(["default", "csv", "sql", "nosy", "noisy", "summary"], rnd.choice([0, 0, 1, 2])),
                          times=rnd.choice([1, 1, 2]), name=rnd.choice(["x", "y"]),
                          extra={k: v for k, v in EXTRA.items() if rnd.random() < 0.15})
                if o == "matrix":
                    op["plans"] = [ps[0]["plan"], ps[1]["plan"]]
                    rnd.shuffle(op["plans"])
            ops.append(op)
        # Something that every process runs
        ops.insert(rnd.randrange(len(ops) + 1), {"op": "sim", "s": seeds[0], "p": 0, "n": rnd.choice([1, 2, 3]), "dump": False, "exp": [], "times": 1, "name": "x"})
        contexts.append({"hash": h, "ops": ops})
    return {"cfg": {}, "params": ps, "steps": rnd.choice([2, 4, 6]), "contexts": contexts}
