"""Histories of runs that write (or do not write) their results"""
NV = 13


def one(rnd, flags, sc):
    matrix = []
    if rnd.random() < 0.4:
        matrix = [[k, rnd.sample(range(NV), rnd.choice([1, 2, 3]))] for k in rnd.sample(["a", "b"], rnd.choice([1, 2]))]
    single = all(len(v) == 1 for _, v in matrix)
    exps = []
    if rnd.random() < 0.85:
        exps.append(rnd.choice(["default", "SQLite"]))
    if rnd.random() < 0.5:
        exps.append(rnd.choice(["csv", "csvname"]))
    if single and rnd.random() < 0.4:
        exps.append("gexf")
    if not exps[:1] and rnd.random() < 0.5:
        exps.append("YAML")
    if not sc["dumps"]:
        exps = rnd.sample(["default", "SQLite", "csv", "gexf", "YAML", "dummy", "summary", "graphdrawing"], rnd.choice([0, 1, 2, 3, 4]))
        if "default" in exps:
            exps = [e for e in exps if e != "SQLite"]
        if not single:
            exps = [e for e in exps if e != "gexf"]
    rnd.shuffle(exps)
    return dict(flags, name=rnd.choice(["s", "s", "s", "t"]), group=rnd.choice([None, None, None, "g"]), outdir=rnd.choice([None, None, "out"]),
                params=[[k, rnd.randrange(NV)] for k in ("a", "b", "c") if rnd.random() < 0.4], matrix=matrix, n=rnd.choice([1, 1, 2, 3]), steps=rnd.choice([1, 2, 4]),
                seed=rnd.choice(["default", "x"]), agents=rnd.choice([1, 2]), net=rnd.random() < 0.6, pos=rnd.random() < 0.3, names=rnd.random() < 0.3,
                words=rnd.random() < 0.6, bools=rnd.choice([0, 0, 0, 1, 1, 2, 3, 4, 5, 6, 7, 8]), tables=rnd.choice([[], [], ["sales"], ["sales", "visits"]]), mr=rnd.random() < 0.7, ar=rnd.random() < 0.7,
                exps=exps, how=rnd.choice(["sim", "sim", "again", "again", "soilrun", "envrun", "kwargs"]), byname=rnd.random() < 0.5)


# Names of simulations
CALLED = ["s", "t", "Sim", "S", "my sim", "a.b", "x-1", "what if?", "100%", "ñ", "x.sqlite", "#1", "it's", "a&b=c"]
KEEP = ("name", "group", "outdir", "params", "matrix", "n", "steps", "seed", "agents", "net", "pos", "names", "words", "bools", "mr", "ar", "tables")


def scenario(rnd, flags, dumps=True):
    sc = {"cfg": {}, "foreign": rnd.random() < 0.3, "dumps": dumps}
    runs = []
    for f in flags:
        r = one(rnd, f, sc)
        if runs and rnd.random() < 0.5:
            # The same simulation as some other run
            o = rnd.choice(runs)
            r.update({k: o[k] for k in KEEP})
            if any(len(v) > 1 for _, v in r["matrix"]):
                r["exps"] = [e for e in r["exps"] if e != "gexf"]
        runs.append(r)
    sc["runs"] = runs
    sc["called"] = rnd.sample(CALLED, 2) if rnd.random() < 0.3 else ["s", "t"]
    return sc


def large(rnd):
    """Many iterations, combinations, agents or steps"""
    sc = {"cfg": {}, "foreign": False, "dumps": True}
    runs = []
    for over in (rnd.random() < 0.5, rnd.random() < 0.3):
        r = one(rnd, {"dump": True, "dry": False, "over": over, "back": False}, sc)
        r.update(rnd.choice([dict(n=12, steps=1, matrix=[]), dict(n=1, steps=1, matrix=[["a", rnd.sample(range(NV), 5)], ["b", rnd.sample(range(NV), 4)]]),
                             dict(n=1, steps=60, matrix=[], agents=3), dict(n=1, steps=2, agents=40, matrix=[])]))
        r.update(name="s", group=None, outdir=None, mr=True, ar=True, exps=[e for e in r["exps"] if e != "gexf" or not r["matrix"]] or ["SQLite"])
        if runs:
            r.update({k: runs[0][k] for k in ("words", "bools", "tables", "net", "names", "pos")})
        runs.append(r)
    sc["runs"] = runs
    sc["called"] = rnd.sample(CALLED, 2) if rnd.random() < 0.3 else ["s", "t"]
    return sc


def backups(rnd):
    """Many backups in a row"""
    sc = {"cfg": {}, "foreign": False, "dumps": True}
    runs = []
    name, group, outdir = rnd.choice("st"), rnd.choice([None, "g"]), rnd.choice([None, "out"])
    for _ in range(rnd.choice([5, 6, 8])):
        r = one(rnd, {"dump": True, "dry": False, "over": rnd.random() < 0.3, "back": rnd.random() < 0.9}, sc)
        r.update(name=name, group=group, outdir=outdir, n=1, steps=1, matrix=[], net=False, exps=[rnd.choice(["default", "SQLite"])])
        runs.append(r)
    sc["runs"] = runs
    sc["called"] = rnd.sample(CALLED, 2) if rnd.random() < 0.3 else ["s", "t"]
    return sc
