"""Files with simulations, in Python, YAML and JSON (Loader.tla)."""
import itertools
import json
import os
import sys
import types
import tempfile
import common
from dataclasses import fields

soil = common.soil_module()
import yaml
from soil import Simulation, Environment, BaseAgent
from soil import simulation as ssim
from soil import exporters as sexp

PARAMS = ["a", "b", "c", "d"]
current = {}
unique = itertools.count(1)

# How the files fail.  (A ValueError may be replaced with another error, as other ways to load the file are tried)
ERRORS = {"value": Exception, "runtime": RuntimeError, "exit": SystemExit, "name": NameError, "syntax": SyntaxError, "import": ImportError, "key": KeyError,
          "attr": AttributeError, "sim": TypeError}
errors = []


def same(ex):
    """Is it the error of the file?  (Or else of another file, which has no simulations)"""
    return len(errors) != 1 or isinstance(ex, errors[0]) or (current["files"] > 1 and isinstance(ex, AttributeError))


hook = types.ModuleType("verif_hook")
hook.made = lambda env: current["log"]("made", c=enc(type(env)), p=pairs({k: v for k, v in vars(env).items() if k in PARAMS}))


class A(BaseAgent):
    def step(self):
        return self.die()


hook.A = A
sys.modules["verif_hook"] = hook


def enc(v):
    if isinstance(v, type):
        return "class:" + (v.__dict__.get("tag") or v.__module__ + "." + v.__qualname__)
    if isinstance(v, list):
        return "[" + ", ".join(map(enc, v)) + "]"
    if isinstance(v, dict):
        return "{" + ", ".join(sorted(enc(k) + ": " + enc(w) for k, w in v.items())) + "}"
    return "%s:%r" % (type(v).__name__, v)


def pairs(params):
    return sorted([k, enc(v)] for (k, v) in params.items())


def record(sim):
    d = {f.name: getattr(sim, f.name) for f in fields(sim)}
    p, m = d.pop("parameters"), d.pop("matrix")
    return {"f": pairs(d), "p": pairs(p), "m": [[k, [enc(v) for v in vs]] for k, vs in sorted(m.items())]}


def defaults(cwd):
    # As documented
    return dict(version="2", source_file=None, description="", group=None, backup=False, overwrite=False, dry_run=False, dump=False,
                seed="default", dir_path=cwd, max_time=None, max_steps=None, iterations=1, num_processes=1, exporters=[sexp.default],
                model_reporters={}, agent_reporters={}, tables={}, outdir=os.path.join(cwd, "soil_output"), exporter_params={},
                level=20, skip_test=False, debug=False)


def expected(given, model_tag, cwd, name=None):
    """The simulation that results from some arguments"""
    d = defaults(cwd)
    d.update({k: v for k, v in given.items() if k not in ("parameters", "matrix", "model")})
    d.setdefault("name", name)
    f = pairs(d) + [["model", "class:" + model_tag]]
    return {"f": sorted(f), "p": pairs(given.get("parameters", {})), "m": [[k, [enc(v) for v in vs]] for k, vs in sorted(given.get("matrix", {}).items())]}


def options(given):
    """Values that replace others"""
    d = {k: v for k, v in given.items() if k not in ("parameters", "matrix")}
    return {"f": pairs(d), "p": [pairs(given["parameters"])] if "parameters" in given else [],
            "m": [[[k, [enc(v) for v in vs]] for k, vs in sorted(given["matrix"].items())]] if "matrix" in given else []}


CLASS = """
class {name}({base}):
    tag = {tag!r}

    def init(self):
        verif_hook.made(self)
        self.add_agent(verif_hook.A)
"""


class Writer:
    """The text of a Python file, and the events that describe it"""

    def __init__(self, folder, prog):
        self.uid = next(unique)
        self.folder = folder
        self.lines = ["import soil, verif_hook", "from soil import Simulation" + (", Environment" if prog["imp"] else ""), "Env0 = None"]
        self.base = "Environment" if prog["imp"] else "soil.Environment"
        self.ev = []
        self.cwd = os.getcwd()
        self.n = 0
        self.prog = prog
        self.helper = f"verif_helper_{self.uid}"
        with open(os.path.join(folder, self.helper + ".py"), "w") as f:
            f.write("import soil, verif_hook\n" + CLASS.format(name="H", base="soil.Environment", tag=f"h{self.uid}"))
        if prog["helper"]:
            self.lines.append(f"import {self.helper}")
        self.classes = 0
        self.late = []
        self.failed = False
        for s in prog["stmts"]:
            self.stmt(s)
            if self.failed:
                break
        if prog["main"]:
            self.lines += ["if __name__ == '__main__':", "    raise Exception('run as the main program')"]
        self.text = "\n".join(self.lines) + "\n"

    def new_class(self, name):
        # Through type(), a class does not have a name in the file
        tag = f"c{self.uid}_{name}"
        self.lines.append(CLASS.format(name=name, base=self.base, tag=tag))
        return tag

    def model(self, s):
        """An expression for a class, its tag and its name"""
        if self.prog["helper"]:
            return f"{self.helper}.H", f"h{self.uid}", "H"
        name = "M%d" % s["m"]
        tag = f"c{self.uid}_{name}"
        if name not in self.prog.setdefault("known", []):
            self.prog["known"].append(name)
            self.new_class(name)
            self.log("class", s=expected({}, tag, self.cwd, name))
        return name, tag, name

    def log(self, k, **kw):
        self.ev.append(dict(k=k, **kw))

    def stmt(self, s):
        kind = s["s"]
        if kind in ("def", "anon"):
            expr, tag, name = self.model(s)
            given = dict(s["sim"])
            self.n += 1
            exp = expected(given, tag, self.cwd, name)
            args = ", ".join([f"model={expr}"] + [f"{k}={v!r}" for k, v in given.items()])
            if kind == "def":
                if s["late"]:
                    early = {k: v for k, v in given.items() if k not in s["late"]}
                    self.lines.append(f"{s['v']} = Simulation({', '.join(['model=' + expr] + [f'{k}={v!r}' for k, v in early.items()])})")
                    self.lines += [f"{s['v']}.{k} = {given[k]!r}" for k in given if k in s["late"]]
                else:
                    self.lines.append(f"{s['v']} = Simulation({args})")
                self.log("def", v=s["v"], i=self.n, s=exp)
                self.objs[s["v"]] = self.n
                return
            form = s["form"]
            if form == "sim":
                self.lines.append(f"Simulation({args}).run({kw(s['kw'])})")
            elif form == "idle":
                self.lines.append(f"Simulation({args})")
            else:
                given.pop("name", None)
                args = ", ".join(f"{k}={v!r}" for k, v in given.items())
                if form == "soilrun":
                    self.lines.append(f"soil.run({expr}{', ' + args if args else ''})")
                    exp = expected(given, tag, self.cwd, "test")
                else:
                    self.lines.append(f"{expr}.run({args})")
                    exp = expected(given, tag, self.cwd, name)
            self.log("def", v="", i=self.n, s=exp)
            if form != "idle":
                self.log("runs", i=self.n, o=options(s["kw"] if form == "sim" else {}))
        elif kind == "run":
            self.lines.append(f"res = {s['v']}.run({kw(s['kw'])})")
            self.lines.append("assert res == []")
            self.log("runs", i=self.objs[s["v"]], o=options(s["kw"]))
        elif kind == "alias":
            self.lines.append(f"{s['v']} = {s['w']}")
            self.objs[s["v"]] = self.objs[s["w"]]
            self.log("alias", v=s["v"], w=s["w"])
        elif kind == "del":
            self.lines.append(f"del {s['v']}")
            self.log("del", v=s["v"])
        elif kind == "class":
            self.classes += 1
            name = f"K{self.classes}"
            tag = self.new_class(name)
            if s.get("alias"):
                self.lines.append(f"Other{self.classes} = {name}")
            self.log("class", s=expected({}, tag, self.cwd, name))
        elif kind == "fail":
            self.lines.append({"value": "raise ValueError('bad')", "runtime": "raise RuntimeError('bad')", "exit": "raise SystemExit(3)", "name": "undefined_name",
                               "syntax": "def (:", "import": "import verif_no_such_module", "key": "{}['x']", "attr": "soil.nothing", "sim": "Simulation(nonsense=1)"}[s["how"]])
            errors.append(ERRORS[s["how"]])
            self.log("fail")
            self.failed = True
            if s["how"] == "syntax":
                # Nothing of the file is executed
                self.ev = [{"k": "fail"}]

    objs = None


def kw(d):
    return ", ".join(f"{k}={v!r}" for k, v in d.items())


def source(folder, prog):
    w = Writer.__new__(Writer)
    w.objs = {}
    prog = json.loads(json.dumps(prog))
    w.__init__(folder, prog)
    path = os.path.join(folder, prog["file"])
    with open(path, "w") as f:
        f.write(w.text)
    return path, w.ev


def documents(folder, op):
    """A YAML or JSON file, and its events"""
    uid = next(unique)
    mod = f"verif_models_{uid}"
    tag = f"y{uid}"
    with open(os.path.join(folder, mod + ".py"), "w") as f:
        f.write("import soil, verif_hook\n" + CLASS.format(name="Y", base="soil.Environment", tag=tag))
    ev, docs = [], []
    cwd = os.getcwd()
    for n, d in enumerate(op["docs"]):
        d = json.loads(json.dumps(d))
        how = d.pop("modelhow")
        given = dict(d)
        t = tag
        given["dir_path"] = folder if op["fmt"] != "dict" else cwd
        if how == "module":
            d["model"] = f"{mod}.Y"
        elif how == "source":
            d["model"] = "Y"
            d["source_file"] = mod + ".py" if op["fmt"] != "dict" else os.path.join(folder, mod + ".py")
            given["source_file"] = os.path.join(folder, mod + ".py")
        else:
            t = "soil.environment.Environment"
        exp = expected(given, t, cwd, d.get("model", "soil.Environment"))
        docs.append(d)
        ev.append({"k": "def", "v": f"doc{n}", "i": n, "s": exp})
    if op["fmt"] == "dict":
        return docs[0], ev
    if op["fmt"] == "glob":
        # Several files, and others that do not match
        for n, d in enumerate(docs):
            with open(os.path.join(folder, "glob%d_%d.yml" % (uid, n)), "w") as f:
                yaml.dump(d, f)
        for name in ("glob%d_0.txt" % uid, "blob%d_0.yml" % uid):
            with open(os.path.join(folder, name), "w") as f:
                yaml.dump({"name": "no", "model": f"{mod}.Y"}, f)
        return os.path.join(folder, ("glob%d_*.yml" if op["pretty"] else "glob%d_[0-9].yml") % uid), ev
    path = os.path.join(folder, op["file"])
    with open(path, "w") as f:
        if op["fmt"] == "json":
            json.dump(docs[0], f, indent=1 if op["pretty"] else None)
        else:
            yaml.dump_all(docs, f, explicit_start=op["pretty"], default_flow_style=op["flow"])
    return path, ev


def run(sc, log):
    current.clear()
    current.update(log=log)
    folder = tempfile.mkdtemp(dir=os.getcwd())
    loaded = []

    def execute(sim, **kws):
        """A normal run"""
        r = record(sim)
        log("run", s=r, n=sim.iterations)
        res = sim.run(dump=False, dry_run=False, exporters=[], **kws)
        combs = 1
        for vs in sim.matrix.values():
            combs *= len(vs)
        log("done", n=len(res), x=combs * sim.iterations)

    class Own(Environment):
        tag = "own"

        def init(self):
            hook.made(self)
            self.add_agent(A)

    for op in sc["ops"]:
        kind = op["op"]
        if kind == "run":
            if op["ix"] and loaded:
                sim = loaded[op["ix"] % len(loaded)]
                if sim.model is not Environment:
                    execute(sim)
            else:
                execute(Simulation(model=Own, parameters={"a": 1}, matrix={"b": [1, 2]} if op["wide"] else {}, iterations=2))
            continue
        if kind == "guard":
            log("guard")
            try:
                with ssim.do_not_run():
                    res = Simulation(model=Own, iterations=2).run()
                    log("run", s=record(Simulation(model=Own)), n=1)
                    log("done", n=len(res), x=0)
                    if op["fail"]:
                        raise RuntimeError("on purpose")
            except RuntimeError:
                pass
            log("unguard")
            continue
        opts = op["opts"]
        if kind == "py":
            files = []
            log("open", o=options(opts))
            errors.clear()
            for n, prog in enumerate(op["progs"]):
                path, ev = source(folder, prog)
                if n:
                    log("next")
                for e in ev:
                    log(**e)
                files.append(path)
        else:
            log("open", o=options(opts))
            errors.clear()
            path, ev = documents(folder, op)
            for e in ev:
                log(**e)
            files = [path]
        if op["rel"]:
            files = [os.path.relpath(f) if isinstance(f, str) else f for f in files]
        how = op["how"]
        written = repr(files[0])
        current["files"] = len(files)
        gen = None
        if how == "run_file":
            log("runall")
            try:
                ssim.run_from_file(*files, **dict(opts, dump=False, dry_run=False, exporters=[]))
                log("ran", fine=True, same=True)
            except (Exception, SystemExit) as ex:
                log("ran", fine=False, m=repr(ex)[:300], same=same(ex))
            continue
        try:
            if how == "iter_py":
                res = list(ssim.iter_from_py(files[0], **opts))
            elif how == "from_file":
                res = ssim.from_file(*files, **opts)
            elif how == "iter_file":
                res = list(ssim.iter_from_file(*files, **opts))
            elif how == "from_py":
                res = ssim.from_py(files[0])
            elif how == "iter_config":
                res = list(ssim.iter_from_config(*files, **opts))
            elif how == "from_config":
                res = [ssim.from_config(files[0])]
            elif how == "lazy":
                gen = ssim.iter_from_file(*files, **opts)
                res = [next(gen)]
        except (Exception, SystemExit) as ex:
            log("failed", m=repr(ex)[:300], same=same(ex))
            continue
        if how == "from_py":
            log("first", s=record(res))
            loaded.append(res)
            continue
        if gen is not None:
            if len(files) == 1:
                # The rest of simulations are not needed yet
                log("loaded")
                execute(Simulation(model=Own, parameters={"c": 1}))
            try:
                res += list(gen)
            except (Exception, SystemExit) as ex:
                log("failed", m=repr(ex)[:300], same=same(ex))
                continue
        log("result", r=[record(s) for s in res])
        log("intact", yes=repr(files[0]) == written)
        loaded += res


if __name__ == "__main__":
    common.main(run)
