"""Calls to the command line"""
VALUES = [0, 1, 2.5, "x", "1", [1, 2], True, None, ""]
KINDS = {"default": ["yml", "sqlite"], "csv": ["csv"], "gexf": ["gexf"], "summary": [], "YAML": ["yml"], "dummy": ["dummy"], "soil.exporters.csv": ["csv"]}


def sim(rnd, n, setkeys):
    g = {}
    if rnd.random() < 0.5:
        g["seed"] = rnd.choice(["s1", "s2", "7"])
    if rnd.random() < 0.5:
        g["iterations"] = rnd.choice([1, 2, 3])
    if rnd.random() < 0.5:
        g["max_time"] = rnd.choice([0, 1, 2, 2.5, 4, 20])
    if rnd.random() < 0.5:
        g["max_steps"] = rnd.choice([0, 1, 2, 3, 20, 150])
    p = {k: rnd.choice(VALUES) for k in "abc" if rnd.random() < 0.4}
    if rnd.random() < 0.5 or "g" in setkeys:
        p["g"] = {"x": rnd.choice(VALUES), "y": rnd.choice(VALUES)}
    if rnd.random() < 0.3 or "h" in setkeys:
        p["h"] = {"x": {"z": rnd.choice(VALUES), "w": 1}}
    if p or rnd.random() < 0.5:
        g["parameters"] = p
    keys = [k for k in "abc" if k not in setkeys]
    if rnd.random() < 0.3 and keys:
        g["matrix"] = {rnd.choice(keys): rnd.sample(VALUES, rnd.choice([1, 2, 3]))}
    return {"given": g, "name": "sim%d" % n, "life": rnd.choice([3, 6])}


def call(rnd, opts, sub=False):
    opts = set(opts)
    argv = []
    o = {"seed": [], "n": [], "t": [], "s": [], "set": [], "dry": False, "nodump": False, "convert": False, "missing": False, "out": None, "kinds": ["yml", "sqlite"]}
    setkeys = set()
    if "only-convert" in opts:
        # Limits are only applied when running
        opts -= {"max_time", "max_steps"}
    if "seed" in opts:
        o["seed"] = [rnd.choice(["s3", "11", "default", "s1", ""])]
        argv.append(["--seed", o["seed"][0]])
    if "iterations" in opts:
        o["n"] = [rnd.choice([1, 2, 3, 0, 1, 2, 3, 12])]
        argv.append(["--iterations", str(o["n"][0])])
    if "max_time" in opts:
        o["t"] = [rnd.choice([0, 1, 2, 2.5, 3, 10])]
        argv.append(["--max_time", str(o["t"][0])])
    if "max_steps" in opts:
        o["s"] = [rnd.choice([0, 1, 2, 4, 10])]
        argv.append(["--max_steps", str(o["s"][0])])
    if "set" in opts:
        for k in rnd.sample(["a", "b", "g.x", "g.v", "h.x.z"], rnd.choice([1, 1, 2, 3])):
            v = rnd.choice(VALUES + ["with = sign", {}])
            o["set"].append([k, v])
            setkeys.add(k.split(".")[0])
            argv.append(["--set", f"{k}={v!r}"])
    if "output" in opts:
        o["out"] = rnd.choice(["out1", "deep/er/out"])
        argv.append([rnd.choice(["--output", "-o"]), o["out"]])
    kinds = set(o["kinds"])
    if "exporter" in opts:
        for e in rnd.sample(sorted(KINDS), rnd.choice([1, 2])):
            argv.append([rnd.choice(["--exporter", "-e"]), e])
            kinds |= set(KINDS[e])
    if "csv" in opts:
        argv.append(["--csv", None])
        kinds.add("csv")
    if "graph" in opts:
        argv.append([rnd.choice(["--graph", "-g"]), None])
        kinds.add("gexf")
    o["kinds"] = sorted(kinds)
    if "no-dump" in opts:
        argv.append(["--no-dump", None])
        o["nodump"] = True
    if "dry-run" in opts:
        argv.append([rnd.choice(["--dry-run", "--dry"]), None])
        o["dry"] = True
    if "only-convert" in opts:
        argv.append([rnd.choice(["--only-convert", "--convert"]), None])
        o["convert"] = True
    if rnd.random() < 0.2:
        argv.append(["--level", rnd.choice(["info", "DEBUG", "ERROR"])])
    if rnd.random() < 0.15:
        argv.append(["--num-processes", rnd.choice(["1", "2", "4"])])
    exporters = None
    if rnd.random() < 0.15:
        # Those given to the function, instead of the default ones
        exporters = rnd.sample(["default", "csv", "YAML", "summary"], rnd.choice([1, 2]))
        kinds = (kinds - {"yml", "sqlite"}) | {k for e in exporters for k in KINDS[e]} | {k for a, e in argv if a in ("--exporter", "-e") for k in KINDS[e]}
        o["kinds"] = sorted(kinds)
    if any(e == "soil.exporters.csv" for _, e in argv) and ("csv" in opts or "csv" in (exporters or []) or any(a in ("--exporter", "-e") and e == "csv" for a, e in argv)):
        # The same exporter, with two names
        argv = [[a, e] for a, e in argv if e != "soil.exporters.csv"]
    rnd.shuffle(argv)
    form = rnd.choice(["py", "py", "yml", "json"] + ([] if sub else ["obj"]))
    fails = rnd.random() < 0.05
    n = rnd.choice([1, 2, 3]) if form in ("py", "yml") else 1
    if form != "obj" and rnd.random() < 0.02:
        o["missing"] = True
    return {"sims": [sim(rnd, i, setkeys) for i in range(n)], "form": form, "runs": rnd.random() < 0.4, "argv": argv, "o": o, "fails": fails, "mods": rnd.choice([0, 0, 0, 0, 0, 0, 1, 1, 2]), "version": rnd.random() < 0.03, "exporters": exporters, "cfgarg": rnd.random() < 0.2,
            "outarg": rnd.choice([None, None, "given_out"]), "sub": sub, "pos": rnd.randint(0, 20)}


def scenario(rnd, sets, sub=False):
    return {"cfg": {}, "calls": [call(rnd, s, sub) for s in sets]}
