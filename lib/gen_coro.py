"""Programs for drv_coro"""
INF = 100000000


def concretise(rnd, prog):
    """prog: [init, states: {name: [segs, next]}], as enumerated by TLC"""
    fsm = len(prog["states"]) > 1 or rnd.random() < 0.4
    states = []
    for name, s in prog["states"].items():
        n = len(s["segs"])
        kinds = ["gen", "genflat"]
        if n == 1 and fsm:
            kinds += ["func"]
        kinds += ["async", "async"]
        cuts = []
        for i in range(1, n):
            if rnd.random() < 0.5:
                cuts.append({"at": i, "len": rnd.randint(1, 3)})
        states.append({"name": name, "segs": s["segs"], "next": s["next"], "kind": rnd.choice(kinds), "cuts": cuts, "how": rnd.randrange(12)})
    return {"fsm": fsm, "init": prog["init"], "states": states,
            "base": rnd.choice(["fsm", "agent"]) if fsm else rnd.choice(["base", "evt"])}


def random_prog(rnd, maxstates=4, maxsegs=6):
    names = [f"s{i}" for i in range(1, rnd.randint(1, maxstates) + 1)]
    waits = rnd.choice([[4, 8], [0, 4, 6], [1, 2, 3, 5], [0, 4, 4, 40]])
    states = {}
    for n in names:
        segs = [rnd.choice(waits) for _ in range(rnd.randint(1, maxsegs))]
        if rnd.random() < 0.05:
            segs[-1] = INF
        states[n] = {"segs": segs, "next": rnd.choice(names)}
    return {"init": rnd.choice(names), "states": states}


def large(rnd):
    """Many states, or long ones"""
    k = rnd.randrange(3)
    s = scenario(rnd, [random_prog(rnd, 12, 3) if k == 0 else random_prog(rnd, 2, 50) for _ in range(2)], 1)
    if k == 2:
        s.pop("fails", None)
        s["agents"] = [{"cls": rnd.randrange(2), "t": rnd.choice([0, 0, 4, 6])} for _ in range(40)]
        s["steps"] = 15
    else:
        s["steps"] = 200
    return s


def scenario(rnd, progs, mult=4):
    progs = [{"init": p["init"], "states": {n: {"segs": [d * mult if d < INF else d for d in s["segs"]], "next": s["next"]}
              for n, s in p["states"].items()}} for p in progs]
    classes = [concretise(rnd, p) for p in progs]
    agents = [{"cls": rnd.randrange(len(classes)), "t": rnd.choice([0, 0, 4, 6])} for _ in range(rnd.randint(1, 4) + len(classes) - 1)]
    sc = {"cfg": {"dflt": rnd.choice([4, 4, 2, 8])}, "sched": rnd.choice(["timed", "pq", "ord"]), "classes": classes, "agents": agents, "steps": 40}
    if rnd.random() < 0.25:
        p = rnd.choice([0.05, 0.3])
        sc["fails"] = [[rnd.random() < p for _ in range(60)] for _ in agents]
    return sc
