"""Names, texts, documents and templates (Config.tla)."""
import builtins
import dataclasses
import importlib
import json
import os
import random
import sys
import common

soil = common.soil_module()
import numpy as np
import yaml
from soil import serialization, simulation
from soil.simulation import Simulation


def enc(v):
    """A text that determines the value and its type"""
    if isinstance(v, type):
        return "class:%s.%s" % (v.__module__, v.__qualname__)
    t = type(v).__name__
    if isinstance(v, dict):
        return t + ":{" + ", ".join(sorted(enc(a) + "=" + enc(b) for a, b in v.items())) + "}"
    if isinstance(v, (set, frozenset)):
        return t + ":{" + ", ".join(sorted(map(enc, v))) + "}"
    if isinstance(v, (list, tuple)):
        return t + ":[" + ", ".join(map(enc, v)) + "]"
    return t + ":" + repr(v)


WORDS = ["", "a", "yes", "null", "1", "-", "x: y", "'", '"q"', "multi\nline", " lead", "trail ", "\n", "#no", "{a}", "2020-01-01", "é", "0x1", "~", "None", "{{ x }}", "a\tb", "%d", "\\n"]


def leaf(rnd, k):
    if k == "int":
        return rnd.choice([0, 1, -1, 7, 10 ** 20, -255])
    if k == "float":
        return rnd.choice([0.0, -0.5, 1.0, 1e-7, 1.5e300, 3.25, 0.1, 1e16])
    if k == "bool":
        return rnd.random() < 0.5
    if k == "none":
        return None
    if k == "str":
        return rnd.choice(WORDS)
    return rnd.choice([b"", b"ab", b"\x00\xff"])


def key(rnd, i):
    return rnd.choice(["k%d" % i, "k%d" % i, "k%d" % i, i, i + 0.5, ("t", i), "%d" % i, "yes" if i else "no"])


def value(rnd, shape):
    """A value with the shape of GenConfig: <<kind>> or <<kind, children>>"""
    k = shape[0]
    if k == "list":
        return [value(rnd, s) for s in shape[1]]
    if k == "tuple":
        return tuple(value(rnd, s) for s in shape[1])
    if k == "set":
        return set(value(rnd, s) for s in shape[1])
    if k == "dict":
        return {key(rnd, i): value(rnd, s) for i, s in enumerate(shape[1])}
    return leaf(rnd, k)


# ---- Texts

def texts(sc, log, rnd):
    values = [value(rnd, s) for s in sc["shapes"]]
    # Leaves are the values most often written: many of them
    values += [leaf(rnd, k) for k in ("str", "str", "str", "int", "float", "bytes", "bool", "none")]
    for v in values:
        before = enc(v)
        text, name = serialization.serialize(v)
        r = serialization.deserialize(name, text)
        if not isinstance(text, str) or not isinstance(name, str):
            log("not-a-text", v=before)
        log("recover", v=before, r=enc(r))
        log("recover", v=before, r=enc(v))


# ---- Names

POOL = ["Environment", "BaseAgent", "Agent", "Simulation", "NetworkAgent", "FSM", "list", "map", "object", "int", "str", "Exception", "Mine", "Other", "Thing"]


def names(sc, log, rnd):
    ids = {}

    def ident(c):
        return ids.setdefault(id(c), len(ids) + 1)

    keep = []
    work = os.getcwd()
    mods = []
    if work not in sys.path:
        sys.path.insert(0, work)
    for i in range(rnd.randint(1, 3)):
        m = "nm%s_%d" % (sc["id"], i)
        xs = rnd.sample(POOL, rnd.randint(1, 5))
        sub = rnd.random() < 0.3
        if sub:
            os.makedirs(m, exist_ok=True)
            open(os.path.join(m, "__init__.py"), "w").close()
            path, m = os.path.join(m, "sub.py"), m + ".sub"
        else:
            path = m + ".py"
        with open(path, "w") as f:
            f.write("import soil\n" + "\n".join("class %s(%s):\n    pass\n" % (x, rnd.choice(["", "soil.Environment", "soil.agents.BaseAgent"])) for x in xs))
        importlib.invalidate_caches()
        mods.append((m, importlib.import_module(m), xs))
    classes = []
    for m, mod, xs in mods:
        for x in xs:
            c = getattr(mod, x)
            keep.append(c)
            classes.append((m, x, c))
    for x in POOL:
        for m, mod in (("builtins", builtins), ("soil", soil)):
            c = getattr(mod, x, None)
            if c is not None:
                log("define", m=m, x=x, c=ident(c))
                if m == "soil" and isinstance(c, type):
                    log("define", m=c.__module__, x=c.__name__, c=ident(c))
                    classes.append((c.__module__, c.__name__, c))
    for m, x, c in classes:
        log("define", m=m, x=x, c=ident(c))

    def split(n):
        m, _, x = n.rpartition(".")
        return {"mod": [m] if m else [], "name": x}

    options = [None, ["soil"], []] + [[m[0] for m in rnd.sample(mods, rnd.randint(1, len(mods)))] for _ in range(3)]
    for kn in options:
        log("knowing", kn=["builtins"] + (["soil"] if kn is None else kn))
        kw = {} if kn is None else {"known_modules": kn}
        for m, x, c in classes:
            n = serialization.name(c, **kw) if rnd.random() < 0.5 else serialization.serialize(c, **kw)[1]
            log("name", c=ident(c), n=split(n))
            r = serialization.deserialize(n, **kw)
            log("resolve", n=split(n), c=ident(r))
            r = serialization.deserialize(repr(c), **kw)
            log("resolve", n={"mod": [m], "name": x}, c=ident(r))
            r = serialization.deserialize(c, **kw)
            log("resolve", n={"mod": [m], "name": x}, c=ident(r))
            d = serialization.serialize_dict({"c": c, "l": [c, 1]}, **kw)
            log("name", c=ident(c), n=split(d["c"]))
            log("name", c=ident(c), n=split(d["l"][0]))


# ---- Documents

MODEL = '''
import json
import soil
from soil.exporters import Exporter


class A(soil.BaseAgent):
    def step(self):
        self.model.total += self.model.random.randint(0, 100)


class M(soil.Environment):
    def __init__(self, **kwargs):
        self.given = {k: v for k, v in kwargs.items() if k[0] == "p" and k[1:].isdigit()}
        for k in self.given:
            kwargs.pop(k)
        self.total = 0
        super().__init__(**kwargs)

    def init(self):
        self.add_agent(A)


class %s(M):
    pass


class Silent(Exporter):
    def sim_start(self, *args, **kwargs):
        pass
'''
FIELDS = [f.name for f in dataclasses.fields(Simulation)]


def fields(sim):
    res = []
    for n in FIELDS:
        v = getattr(sim, n)
        if n == "exporters":
            v = [serialization.deserialize(x, known_modules=["soil.exporters"]) for x in v]
        res.append([n, enc(v)])
    return res


def documents(sc, log, rnd):
    work = os.path.join(os.getcwd(), "d%s" % sc["id"])
    os.makedirs(work, exist_ok=True)
    if work not in sys.path:
        sys.path.insert(0, work)
    other = rnd.choice(["Environment", "Agent", "Mine", "Simulation"])
    mod = "dm%s" % sc["id"]
    with open(os.path.join(work, mod + ".py"), "w") as f:
        f.write(MODEL % other)
    importlib.invalidate_caches()
    module = importlib.import_module(mod)
    n = 0
    saved = []
    for ss in sc["sims"]:
        model = rnd.choice([module.M, getattr(module, other)])
        kw = {"model": rnd.choice([model, "%s.%s" % (mod, model.__name__)])}
        par = {"p%d" % i: value(rnd, s) for i, s in enumerate(ss)}
        kw["parameters"] = par
        if rnd.random() < 0.5:
            kw["matrix"] = {"p%d" % (10 + i): [value(rnd, s) for s in rnd.sample(ss, min(2, len(ss)))] for i in range(rnd.randint(1, 2))}
        opts = dict(name=rnd.choice(["sim", "yes", "1", "a: b"]), description=rnd.choice(WORDS), group=rnd.choice(["g", "null", "7"]), max_time=rnd.choice([5, 2.5, 0.5]),
                    seed=rnd.choice(["s", "123", "no", ""]), iterations=rnd.choice([1, 2, 3]), overwrite=True, backup=True,
                    version="2", dir_path=work, outdir=os.path.join(work, "out"), level=rnd.choice([10, 40]), skip_test=True,
                    exporter_params={"copy_to": None}, model_reporters={"t": "total"}, agent_reporters={"u": "unique_id"},
                    exporters=rnd.choice([[], ["default"], ["soil.exporters.csv"], [module.Silent], [soil.exporters.default, module.Silent]]), num_processes=rnd.choice([1, 2]))
        kw["max_steps"] = rnd.randint(1, 6)
        kw["level"] = 40
        for k in opts:
            if rnd.random() < 0.4:
                kw[k] = opts[k]
        if rnd.random() < 0.2:
            kw["dry_run"] = True
        sim = Simulation(**kw)
        n += 1
        log("make", i=n, f=fields(sim))
        saved.append((n, sim))

    def digest(envs):
        return repr([(e.id, e.total, e.now, e.schedule.steps, enc(e.given), repr(e.random.random())) for e in envs])

    def results(i, sim):
        kw = {"dump": False}
        envs = sim.run(**kw)
        log("results", i=i, r=digest(envs))

    def loaded(i, d, sim, o=()):
        log("load", d=d, o=list(o), f=fields(sim))
        log("make", i=i, f=fields(sim))

    docs = 0
    for i, sim in saved:
        if rnd.random() < 0.5:
            results(i, sim)
            log("same", i=i, f=fields(sim))
        docs += 1
        d = docs
        log("dump", i=i, d=d)
        way = rnd.choice(["yaml", "yaml", "dict", "many", "kw", "twice", "json"])
        path = os.path.join(work, "c%d.yml" % d)
        if way == "json" and all(enc(json.loads(json.dumps(v))) == enc(v) if _jsonable(v) else False for v in sim.to_dict().values()):
            path = os.path.join(work, "c%d.json" % d)
            with open(path, "w") as f:
                json.dump(sim.to_dict(), f)
            new = simulation.from_config(path)
        elif way == "dict":
            doc = sim.to_dict()
            new = simulation.from_config(doc)
            log("same", i=i, f=fields(sim))
            # Documents do not change when they are loaded
            new2 = simulation.from_config(doc)
            n += 1
            loaded(n, d, new2)
        elif way == "many":
            others = rnd.sample(saved, rnd.randint(0, min(2, len(saved))))
            with open(path, "w") as f:
                f.write("---\n".join([s.to_yaml() for _, s in others] + [sim.to_yaml()]))
            lst = list(simulation.iter_from_config(path))
            if len(lst) != len(others) + 1:
                log("wrong-number-of-simulations", n=len(lst))
                raise common.Abort()
            for (j, s), new in zip(others, lst):
                docs += 1
                log("dump", i=j, d=docs)
                n += 1
                loaded(n, docs, new)
            new = lst[-1]
        elif way == "kw":
            with open(path, "w") as f:
                f.write(sim.to_yaml())
            o = rnd.choice([dict(iterations=4), dict(max_steps=3, seed="other"), dict(name="new"), dict(parameters={"p0": "0"})])
            lst = list(simulation.iter_from_config(path, **o))
            if len(lst) == 1:
                n += 1
                loaded(n, d, lst[0], [[k, enc(v)] for k, v in o.items()])
                results(n, lst[0])
            new = simulation.from_config(path)
        else:
            text = sim.to_yaml()
            with open(path, "w", encoding="utf-8") as f:
                f.write(text)
            new = simulation.from_config(path)
            if way == "twice":
                with open(path, "w") as f:
                    f.write(new.to_yaml())
                n += 1
                loaded(n, d, new)
                new = simulation.from_file(path)[0]
        n += 1
        loaded(n, d, new)
        log("same", i=i, f=fields(sim))
        if rnd.random() < 0.7:
            results(n, new)
            results(i, sim)
    sys.path.remove(work)


def _jsonable(v):
    try:
        json.dumps(v)
        return True
    except TypeError:
        return False


# ---- Templates

SAMPLER = '''
import numpy as np


def sample(problem, rows, array=False):
    assert problem["num_vars"] == len(problem["names"]) == len(problem["bounds"])
    # Values in each of the bounds
    res = [[lo + (hi - lo) * r / 4 for (lo, hi) in problem["bounds"]] for r in range(rows)]
    return np.array(res) if array else res
'''


def templates(sc, log, rnd):
    work = os.path.join(os.getcwd(), "t%s" % sc["id"])
    os.makedirs(work, exist_ok=True)
    mod = "sm%s" % sc["id"]
    with open(os.path.join(work, mod + ".py"), "w") as f:
        f.write(SAMPLER)
    sys.path.insert(0, work)
    importlib.invalidate_caches()
    docs, given = [], []
    for t in sc["docs"]:
        fixed = {"z": rnd.choice([0, "w", True])}
        form = "text"
        if t["kind"] == "plain":
            doc = {"group": "plain", "parameters": fixed}
            lists, bounds, samples = {}, {}, [[]]
        else:
            xs, ys = rnd.sample(["x0", "b", "Z", "x_1", "aa"], 5), rnd.sample(["y1", "y0", "Y", "k", "c", "y10", "y2"], 7)
            lists = {xs[i]: rnd.sample([0, 1, 2.5, True, "a", "b c", 40], k) for i, k in enumerate(t["lists"])}
            for k in lists:
                # Without values that look the same
                lists[k] = [v for j, v in enumerate(lists[k]) if v not in lists[k][:j]]
            bounds = {ys[i]: rnd.choice([[0, 1], [1, 3], [2, 10], [-4, 4]]) for i in range(t["bounds"])}
            rows = rnd.randint(1, 4)
            if t["kind"] == "own" or not bounds:
                sampler = {"method": mod + ".sample", "rows": rows}
                if len(bounds) < 2 or rnd.random() < 0.5:
                    sampler["array"] = True
                samples = [[lo + (hi - lo) * r / 4 for lo, hi in bounds.values()] for r in range(rows)]
            else:
                import SALib.sample.latin
                import SALib.sample.morris
                problem = {"num_vars": len(bounds), "names": list(bounds), "bounds": list(bounds.values())}
                seed = rnd.randrange(1000)
                if len(bounds) < 2 or rnd.random() < 0.5:
                    sampler = {"method": "SALib.sample.latin.sample", "N": rows, "seed": seed}
                    samples = SALib.sample.latin.sample(problem, N=rows, seed=seed).tolist()
                else:
                    sampler = {"N": rows, "seed": seed}
                    samples = SALib.sample.morris.sample(problem, N=rows, seed=seed).tolist()
                if any(abs(v) < 0.001 and v != 0 for s in samples for v in s):
                    raise common.Abort()
            form = rnd.choice(["text", "dict"])
            if form == "text":
                lines = ["group: tpl", "parameters:"] + ["    %s: %s" % (k, v) for k, v in fixed.items()] + ["    %s: {{ %s }}" % (k, k) for k in list(lists) + list(bounds)]
                template = "\n".join(lines)
            else:
                template = {"group": "tpl", "parameters": dict(fixed, **{k: "{{ %s }}" % k for k in list(lists) + list(bounds)})}
            variables = {"bounds": bounds}
            if lists or rnd.random() < 0.5:
                variables["lists"] = lists
            doc = {"sampler": sampler, "template": template, "vars": variables}
        docs.append(doc)
        e = (lambda v: enc(str(v))) if form == "dict" else enc
        given.append(dict(lists=[[k, [e(v) for v in vs]] for k, vs in lists.items()], bounds=list(bounds), samples=[[e(v) for v in s] for s in samples],
                          fixed=[["group", enc(doc["group"] if "group" in doc else "tpl")]] + [[k, enc(v)] for k, v in fixed.items()]))

    def flat(c):
        return [["group", enc(c["group"])]] + [[k, enc(v)] for k, v in c["parameters"].items()] + [[k, enc(v)] for k, v in c.items() if k not in ("group", "parameters")]

    path = os.path.join(work, "conf.yml")
    with open(path, "w") as f:
        f.write("---\n".join(yaml.dump(d, sort_keys=False) for d in docs))
    for g in given:
        log("template", t=g)
    log("expand", rs=[flat(c) for c in serialization.load_file(path)])
    lst = list(simulation.iter_from_config(path))
    log("expand", rs=[flat({"group": s.group, "parameters": s.parameters}) for s in lst])
    log("expand", rs=[flat(c) for c, p in serialization.load_files(path)])
    for d, g in zip(docs, given):
        log("clear")
        log("template", t=g)
        for _ in range(2):
            # The same document, twice
            log("expand", rs=[flat(c) for c in serialization.expand_template(d)])
    # Templates that are not valid
    own = {"method": mod + ".sample", "rows": 2}
    var = {"bounds": {"y": [0, 1]}, "lists": {"x": [1, 2]}}
    bad = {"named": {"sampler": own, "template": "name: n{{ x }}\ngroup: g", "vars": var}, "unnamed": {"sampler": own, "template": {"name": "n", "parameters": {"a": "{{ x }}"}}, "vars": var},
           "novars": {"sampler": own, "template": "group: g"}, "several": {"sampler": own, "template": "group: a\n---\ngroup: b", "vars": var},
           "nobounds": {"sampler": own, "template": "group: g", "vars": {"lists": {"x": [1]}}}, "nosampler": {"sampler": {"method": mod + ".nothing"}, "template": "group: g", "vars": var}}
    for what in rnd.sample(sorted(bad), 2):
        path = os.path.join(work, "bad.yml")
        with open(path, "w") as f:
            yaml.dump(bad[what], f)
        for load in (lambda: list(serialization.expand_template(bad[what])), lambda: serialization.load_file(path), lambda: list(simulation.iter_from_config(path))):
            try:
                load()
                log("refused", what=what, yes=False)
            except Exception:
                log("refused", what=what, yes=True)
    # Names that lead nowhere
    for what in ("verif_no_such.Thing", mod + ".nothing", "NoSuchThing", "soil.nothing.at.all", "<class 'soil.Nothing'>"):
        for load in (lambda: serialization.deserialize(what), lambda: serialization.deserializer(what), lambda: Simulation(model=what), lambda: serialization.deserialize_all([what])):
            try:
                load()
                log("refused", what=what, yes=False)
            except Exception:
                log("refused", what=what, yes=True)
    sys.path[:] = [p for p in sys.path if p != work]


def run(sc, log):
    rnd = random.Random(str(sc["seed"]))
    {"texts": texts, "names": names, "documents": documents, "templates": templates}[sc["part"]](sc, log, rnd)


common.main(run)
