"""Files with simulations"""
FIELDS = {"seed": ["x", "1", 5], "iterations": [1, 2, 3], "max_steps": [1, 2, 7], "max_time": [1, 2.5, 10], "name": ["n1", "n2"], "description": ["some text"], "group": ["g"],
          "backup": [True], "overwrite": [True], "dry_run": [True], "dump": [True, False], "skip_test": [True], "version": ["2", "3"], "num_processes": [1, 2],
          "exporters": [[], ["csv"], ["default", "summary"]], "exporter_params": [{}, {"x": 1}], "tables": [{}], "outdir": ["somewhere"], "level": [10, 30]}
PVALUES = [0, 1, 2.5, "x", "1", [1, 2], {"k": [1]}, True, None, ""]


def params(rnd):
    return {k: rnd.choice(PVALUES) for k in "abcd" if rnd.random() < 0.35}


def matrix(rnd):
    ks = [k for k in "abcd" if rnd.random() < 0.3][:2]
    rnd.shuffle(ks)
    return {k: rnd.sample(PVALUES, rnd.choice([1, 2, 2, 3])) for k in ks}


def given(rnd, few=False):
    g = {k: rnd.choice(v) for k, v in FIELDS.items() if rnd.random() < (0.08 if few else 0.15)}
    if rnd.random() < (0.2 if few else 0.5):
        g["parameters"] = params(rnd)
    if rnd.random() < (0.15 if few else 0.4):
        g["matrix"] = matrix(rnd)
    return g


def opts(rnd):
    return given(rnd, True) if rnd.random() < 0.6 else {}


def stmt(rnd, s):
    kind, *args = s.split()
    if kind == "def":
        g = given(rnd)
        late = [k for k in g if k != "name" and rnd.random() < 0.4] if rnd.random() < 0.3 else []
        return {"s": "def", "v": args[0], "sim": g, "m": rnd.randint(1, 2), "late": late}
    if kind == "anon":
        return {"s": "anon", "sim": given(rnd), "m": rnd.randint(1, 2), "form": rnd.choice(["sim", "sim", "soilrun", "envrun", "idle"]), "kw": given(rnd, True)}
    if kind == "run":
        return {"s": "run", "v": args[0], "kw": given(rnd, True) if rnd.random() < 0.5 else {}}
    if kind == "alias":
        return {"s": "alias", "v": args[0], "w": args[1]}
    if kind == "del":
        return {"s": "del", "v": args[0]}
    if kind == "class":
        return {"s": "class", "alias": rnd.random() < 0.3}
    return {"s": "fail", "how": rnd.choice(["value", "runtime", "exit", "name", "syntax", "import", "key", "attr", "sim"])}


def prog(rnd, stmts):
    body = [stmt(rnd, s) for s in stmts]
    defs = [s for s in body if s["s"] == "def"]
    if len(defs) > 1 and rnd.random() < 0.4:
        # Two simulations that are equal
        defs[-1].update(sim=dict(defs[0]["sim"]), m=defs[0]["m"], late=list(defs[0]["late"]))
    return {"stmts": body, "imp": rnd.random() < 0.5, "helper": rnd.random() < 0.3, "main": rnd.random() < 0.4, "file": rnd.choice(["one.py", "two.py", "one.py", "two.py", "my file.py", "1.0-x.py", "[1].py", "what?.py"])}


def large(rnd):
    """Files with many simulations, and large matrices"""
    names = ["s%d" % i for i in range(rnd.randint(8, 14))]
    stmts = ["def " + n for n in names]
    for _ in range(4):
        stmts.insert(rnd.randrange(len(stmts) + 1), rnd.choice(["anon", "class"]))
    stmts += rnd.sample(["run " + n for n in names], 2) if rnd.random() < 0.3 else []
    op = py(rnd, [stmts])
    for s in op["progs"][0]["stmts"]:
        if s["s"] == "def" and "matrix" in s["sim"] and rnd.random() < 0.3:
            s["sim"]["matrix"] = {"a": PVALUES[:6], "b": PVALUES[2:8]}
    docs = [dict(given(rnd), modelhow=rnd.choice(["module", "source", "none"])) for _ in range(rnd.randint(8, 15))]
    many = dict(cfg(rnd), fmt="yaml", file="many.yml", docs=docs)
    if many["how"] in ("run_file", "from_config"):
        many["how"] = "from_file"
    return {"cfg": {}, "ops": [op, many, {"op": "run", "ix": rnd.choice([3, 7]), "wide": True}]}


def py(rnd, progs):
    o = opts(rnd)
    how = rnd.choice(["from_file", "iter_file", "lazy"] + (["iter_py", "iter_py", "run_file"] if len(progs) == 1 else []) + (["from_py"] if len(progs) == 1 and not o else []))
    ps = [prog(rnd, p) for p in progs]
    for n, p in enumerate(ps):
        if len(ps) > 1:
            p["file"] = f"part{n}.py"
    return {"op": "py", "progs": ps, "opts": o, "how": how, "rel": rnd.random() < 0.4}


def cfg(rnd):
    fmt = rnd.choice(["yaml", "yaml", "json", "dict", "glob"])
    n = rnd.choice([1, 1, 2, 3]) if fmt in ("yaml", "glob") else 1
    docs = [dict(given(rnd), modelhow=rnd.choice(["source", "none"] if fmt == "dict" else ["module", "source", "none"])) for _ in range(n)]
    for d in docs:
        if not d.get("name") and rnd.random() < 0.5:
            d["name"] = rnd.choice(["n1", "n3"])
    o = opts(rnd)
    if fmt == "dict":
        how = "from_config" if not o else "iter_config"
    else:
        how = rnd.choice(["from_file", "iter_file", "iter_config", "lazy"] + (["run_file", "run_file"] if all(d["modelhow"] != "none" for d in docs) else []) + (["from_config"] if n == 1 and not o else []))
    return {"op": "cfg", "docs": docs, "fmt": fmt, "file": rnd.choice(["c", "d", "c", "d", "my file", "v1.0", "run [1]", "what?", "a*b"]) + "." + {"yaml": rnd.choice(["yml", "yaml"]), "json": "json", "dict": "", "glob": ""}[fmt], "opts": o, "how": how,
            "rel": rnd.random() < 0.4, "pretty": rnd.random() < 0.5, "flow": rnd.choice([None, True, False])}


def other(rnd):
    r = rnd.random()
    if r < 0.5:
        return {"op": "run", "ix": rnd.choice([0, 1, 2, 3, 4]), "wide": rnd.random() < 0.5}
    if r < 0.7:
        return {"op": "guard", "fail": rnd.random() < 0.5}
    return cfg(rnd)


def scenario(rnd, progs):
    ops = []
    while progs:
        k = 2 if len(progs) > 1 and rnd.random() < 0.2 else 1
        ops.append(py(rnd, progs[:k]))
        progs = progs[k:]
        if rnd.random() < 0.6:
            ops.append(other(rnd))
    if rnd.random() < 0.4:
        ops.append(dict(rnd.choice([o for o in ops if o["op"] in ("py", "cfg")])))
    ops.append({"op": "run", "ix": rnd.choice([0, 1, 2, 3]), "wide": True})
    return {"cfg": {}, "ops": ops}
