"""Simulations with every shape of matrix"""
NV = 18


def one(rnd, shape=None):
    if shape is None:
        keys = ["a", "b", "c", "d", "model_reporters", "agent_reporters"]
        fixed = [k for k in keys if rnd.random() < 0.35]
        mk = [k for k in keys if rnd.random() < 0.3][:3]
        rnd.shuffle(mk)
        matrix = [[k, rnd.choice([0, 1, 1, 2, 2, 3])] for k in mk]
        n = rnd.choice([0, 1, 1, 2, 3])
    else:
        fixed, matrix, n = shape["fixed"], shape["matrix"], shape["n"]

    # Either any values, or the same few for every parameter
    pool = range(NV) if rnd.random() < 0.5 else rnd.sample(range(NV), 3)

    if shape and any(m > 3 for _, m in matrix):
        pool = range(NV)

    def distinct(k, m):
        return rnd.sample(range(4 if k == "model_reporters" else 3 if k == "agent_reporters" else NV) if "_" in k else list(pool), m)
    r = {"fixed": [[k, distinct(k, 1)[0]] for k in fixed], "matrix": [[k, distinct(k, m)] for k, m in matrix], "n": n,
         "exps": rnd.sample(["RecA", "RecB", "RecC"], rnd.choice([0, 1, 1, 2, 3])), "others": rnd.sample(["summary", "default", "SQLite", "csvcls", "dummycls"], rnd.choice([0, 0, 0, 1, 2])),
         "first": rnd.random() < 0.5, "mr": rnd.sample(["s1", "s2"], rnd.choice([0, 0, 1, 2])), "ar": rnd.sample(["s3", "s4"], rnd.choice([0, 0, 1, 2])), "agents": rnd.choice([1, 2]), "life": rnd.choice([1, 2, 50]),
         "steps": rnd.choice([1, 2, 3]), "dump": rnd.random() < 0.1, "how": rnd.choice(["sim", "sim", "sim", "kwargs", "soilrun", "envrun"]), "again": rnd.random() < 0.3,
         "cls": rnd.choice(["env", "env", "bare"]), "inner": rnd.random() < 0.2}
    if r["dump"]:
        # The tables of a database cannot change their columns
        r["others"] = [x for x in r["others"] if x in ("summary", "csvcls", "dummycls")]
    return r


def large(rnd):
    """Many combinations, or iterations"""
    shape = rnd.choice([{"matrix": [["a", 11], ["b", 10]], "n": 1}, {"matrix": [["b", 6], ["a", 5], ["c", 4]], "n": 1}, {"matrix": [["d", 17]], "n": 5},
                        {"matrix": [["c", 2]], "n": 40}, {"matrix": [], "n": 70}])
    r = one(rnd, dict(shape, fixed=rnd.sample("abcd", 2)))
    r["matrix"] = [[k, rnd.sample(range(NV), m)] for k, m in shape["matrix"]]
    return {"cfg": {}, "runs": [dict(r, life=1, steps=1, agents=1, others=[], again=False)]}


def variant(rnd, r):
    """The same parameters, described in another way"""
    r = dict(r, how="sim", exps=["RecB"])
    fixed, matrix = list(r["fixed"]), list(r["matrix"])
    names = [k for k, _ in matrix]
    for k, vs in list(matrix):
        if len(vs) == 1 and rnd.random() < 0.5:
            matrix.remove([k, vs])
            fixed = [f for f in fixed if f[0] != k] + [[k, vs[0]]]
    for k, v in list(fixed):
        if k not in names and rnd.random() < 0.5:
            fixed.remove([k, v])
            matrix.append([k, [v]])
    rnd.shuffle(fixed)
    rnd.shuffle(matrix)
    return dict(r, fixed=fixed, matrix=matrix)


def scenario(rnd, shapes):
    runs = []
    for s in shapes:
        runs.append(one(rnd, s))
        if rnd.random() < 0.3:
            runs.append(variant(rnd, runs[-1]))
    return {"cfg": {}, "runs": runs}
