"""Calls to the command line, in this process or in another one (Cli.tla)."""
import contextlib
import csv as csvlib
import io
import itertools
import json
import os
import sqlite3
import subprocess
import sys
import tempfile
import common
from common import T, REPO

soil = common.soil_module()
import yaml
from soil import Simulation, Environment, BaseAgent

PARAMS = ["a", "b", "c", "g", "h"]
unique = itertools.count(1)

# Models write what they do in a file, so that they can be run in any process
HOOK = '''
import json, os
PARAMS = %r

def made(env):
    env.key = "%%d/%%d" %% (os.getpid(), id(env))
    keep.append(env)
    write(k="made", key=env.key, c=type(env).__name__, i=int(env.id), p={x: v for x, v in vars(env).items() if x in PARAMS}, d=repr([env.random.random() for _ in range(3)]))

def acted(env):
    write(k="act", key=env.key)

def write(**kw):
    with open(os.environ["VERIF_CLI_LOG"], "a") as f:
        f.write(json.dumps(kw) + "\\n")

keep = []
''' % (PARAMS,)

MODELS = '''
import soil, verif_cli_hook

class A(soil.BaseAgent):
    n = 0
    life = None
    def step(self):
        verif_cli_hook.acted(self.model)
        self.n += 1
        if self.n >= self.life:
            return self.die()
'''
CLASS = '''
class {c}(soil.Environment):
    def init(self):
        verif_cli_hook.made(self)
        {fail}
        self.add_agent(A, life={life})
'''


def enc(v):
    return "%s:%r" % (type(v).__name__, v)


def flat(params):
    """Parameters, with an entry for each key of those that are dictionaries"""
    res = []
    for k, v in params.items():
        if isinstance(v, dict) and v:
            res += [[k + "." + x, y] for x, y in flat(v)]
        else:
            res.append([k, enc(v)])
    return sorted(res)


def matrix(m):
    return [[k, [enc(v) for v in vs]] for k, vs in sorted(m.items())]


def lim(x):
    return -1 if x is None else T(x)


def steps(x):
    return -1 if x is None else int(x)


def listing(folder):
    res = {}
    for root, _, fs in os.walk(folder):
        for f in fs:
            p = os.path.join(root, f)
            st = os.stat(p)
            res[os.path.relpath(p, folder)] = (st.st_mtime_ns, st.st_size)
        res[os.path.relpath(root, folder) + "/"] = 0
    return res


def kind(path):
    """<<folder, simulation, kind>> of a file"""
    parts = path.split(os.sep)
    name = parts[-1]
    k = ("yml" if name.endswith(".dumped.yml") else "sqlite" if name.endswith(".sqlite") else "csv" if name.endswith(".csv") else "gexf" if name.endswith(".gexf")
         else "dummy" if name == "dummy" else "other")
    if len(parts) < 3:
        return ["", path, "other"]
    return [os.sep.join(parts[:-2]), parts[-2], k]


def refs(log, seeds, models):
    """The random sequences that correspond to each seed"""
    class Ref(Environment):
        def init(self):
            found.append(repr([self.random.random() for _ in range(3)]))
            self.add_agent(BaseAgent)

    done = set()
    for m in models:
        for s in seeds:
            key = json.dumps([s, flat(m["p"]), m["i"]])
            if key in done:
                continue
            found = []
            Simulation(model=Ref, parameters=m["p"], seed=s, iterations=m["i"] + 1, max_steps=0, exporters=[]).run()
            for i, d in enumerate(found):
                done.add(json.dumps([s, flat(m["p"]), i]))
                log("ref", seed=str(s), p=flat(m["p"]), i=i, d=d)


def run(sc, log):
    home = os.getcwd()
    folder = tempfile.mkdtemp(dir=home)
    # Relative paths are those of the current folder
    os.chdir(folder)
    path0 = list(sys.path)
    try:
        for call in sc["calls"]:
            one(call, log, folder)
    finally:
        os.chdir(home)
        sys.path[:] = path0
        for m in [m for m in sys.modules if m.startswith("verif_cli_")]:
            del sys.modules[m]


def one(call, log, folder):
    uid = next(unique)
    logfile = os.path.join(folder, "log.%d" % uid)
    os.environ["VERIF_CLI_LOG"] = logfile
    with open("verif_cli_hook.py", "w") as f:
        f.write(HOOK)
    sims, classes, ctor = [], [], []
    for n, s in enumerate(call["sims"]):
        c = "M%d_%d" % (uid, n)
        fails = call["fails"] and n == len(call["sims"]) - 1
        classes.append(CLASS.format(c=c, life=s["life"], fail='raise RuntimeError("on purpose")' if fails else ""))
        d = dict(s["given"])
        d["name"] = s["name"]
        ctor.append((c, d))
        sims.append({"c": c, "name": s["name"], "seed": str(d.get("seed", "default")), "n": d.get("iterations", 1), "t": lim(d.get("max_time")), "s": steps(d.get("max_steps")),
                     "p": flat(d.get("parameters", {})), "m": matrix(d.get("matrix", {})), "life": s["life"]})
    mod = "verif_cli_models_%d" % uid
    form = call["form"]
    obj = None
    if form == "py":
        fname = "sims_%d.py" % uid
        lines = [MODELS] + classes
        for n, (c, d) in enumerate(ctor):
            args = ", ".join(f"{k}={v!r}" for k, v in d.items())
            if call["runs"] and "matrix" not in d:
                lines.append(f"soil.Simulation(model={c}, {args}).run()")
            else:
                lines.append(f"s{n} = soil.Simulation(model={c}, {args})")
        with open(fname, "w") as f:
            f.write("\n".join(lines) + "\n")
    else:
        with open(mod + ".py", "w") as f:
            f.write(MODELS + "\n".join(classes))
        fname = "conf_%d.%s" % (uid, form)
        docs = [dict(d, model=f"{mod}.{c}") for c, d in ctor]
        if form == "json":
            with open(fname, "w") as f:
                json.dump(docs[0], f)
        elif form == "yml":
            with open(fname, "w") as f:
                yaml.dump_all(docs, f)
        else:
            # An object
            sys.path.insert(0, folder)
            import importlib
            m = importlib.import_module(mod)
            c, d = ctor[0]
            obj = Simulation(model=getattr(m, c), **json.loads(json.dumps(d)))
    o = call["o"]
    argv = []
    for name, value in call["argv"]:
        if value is None:
            argv.append([name])
        elif name.startswith("--") and len(value) % 2:
            argv.append([name + "=" + value])
        else:
            argv.append([name, value])
    missing = o["missing"]
    mods = []
    for n in range(call["mods"]):
        # Modules to be imported first
        name = "verif_cli_mod_%d_%d" % (uid, n)
        with open(name + ".py", "w") as f:
            f.write("import verif_cli_hook\nverif_cli_hook.write(k='mod', m=%r)\n" % name)
        mods.append(name)
        argv.insert(call["pos"] % (len(argv) + 1), ["-m" if n else "--module", name])
    # If there are several, only the last one counts
    mods = [a[1] for a in argv if a[0] in ("-m", "--module")][-1:]
    if call["version"]:
        argv.append(["--version"])
    if obj is None and not call["cfgarg"]:
        argv.insert(call["pos"] % (len(argv) + 1), [fname if not missing else "nothing_here.py"])
    argv = [x for a in argv for x in a]
    default_out = call["outarg"] or "soil_output"
    kinds = {bool(call["runs"] and "matrix" not in d) for _, d in ctor} if form == "py" else {True}
    log("invoke", sims=sims, inorder=len(kinds) == 1, o={"seed": o["seed"], "n": o["n"], "t": [lim(x) for x in o["t"]], "s": [steps(x) for x in o["s"]],
                                "set": sorted([k, enc(v)] for k, v in o["set"]), "dry": o["dry"], "nodump": o["nodump"], "convert": o["convert"], "missing": missing or call["version"],
                                "out": o["out"] or default_out, "kinds": o["kinds"]})
    before = listing(folder)
    kwargs = {}
    if call["outarg"]:
        kwargs["output"] = call["outarg"]
    if obj is not None:
        kwargs["cfg"] = obj
    elif call["cfgarg"]:
        kwargs["cfg"] = fname if not missing else "nothing_here.py"
    exporters = list(call["exporters"]) if call["exporters"] else None
    if exporters:
        kwargs["exporters"] = exporters
    out = io.StringIO()
    failed = False
    if call["sub"]:
        code = "import soil, json, sys; soil.main(**json.loads(%r))" % json.dumps(kwargs) if kwargs else None
        cmd = [sys.executable] + (["-c", code] if code else ["-m", "soil"]) + argv
        p = subprocess.run(cmd, cwd=folder, env=dict(os.environ, PYTHONPATH=REPO, TQDM_DISABLE="1"), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=60)
        failed = bool(p.returncode) and call["fails"] and "on purpose" in p.stderr
        if p.returncode and not failed:
            log("exc", m=p.stderr[-1500:])
            raise common.Abort()
        out.write(p.stdout)
    else:
        old = sys.argv
        sys.argv = ["soil"] + argv
        try:
            with contextlib.redirect_stdout(out):
                res = soil.main(**kwargs)
        except RuntimeError as ex:
            if not call["fails"] or "on purpose" not in str(ex):
                raise
            res = None
            failed = True
        except SystemExit as ex:
            log("exc", m="SystemExit %s" % ex)
            raise common.Abort()
        finally:
            sys.argv = old
        if res is not None:
            log("results", n=sum(map(len, res)))
    after = listing(folder)
    models, found = [], []
    if os.path.exists(logfile):
        recs = [json.loads(l) for l in open(logfile)]
        acts = {}
        for r in recs:
            if r["k"] == "act":
                acts[r["key"]] = acts.get(r["key"], 0) + 1
        models = [r for r in recs if r["k"] == "made"]
        found = [r["m"] for r in recs if r["k"] == "mod"]
        for m in models:
            m["n"] = acts.get(m["key"], 0)
    log("modules", given=mods if not call["version"] else [], found=found)
    if exporters and exporters != call["exporters"]:
        log("argument-modified")
    if call["fails"]:
        log("failed", yes=failed)
        if failed:
            return
    seeds = sorted({s["seed"] for s in sims} | set(o["seed"]))
    refs(log, seeds, models)
    for m in models:
        log("model", c=m["c"], p=flat(m["p"]), i=m["i"], n=m["n"], d=m["d"])
    changed = [p for p in after if before.get(p) != after[p] and not p.endswith("/") and not p.startswith("log.") and "__pycache__" not in p]
    gone = [p for p in before if p not in after]
    # Folders that contain nothing
    changed += [p for p in after if p.endswith("/") and p not in before and "__pycache__" not in p and not any(q.startswith(p) and not q.endswith("/") for q in after)]
    fs = sorted({tuple(kind(p)) for p in changed + gone})
    rows = []
    for p in changed:
        if p.endswith(".csv"):
            with open(p, newline="") as f:
                for row in csvlib.reader(f):
                    if "simulation_id" in row:
                        header = row
                    else:
                        d = dict(zip(header, row))
                        rows.append((p, d["simulation_id"], d["params_id"], d["iteration_id"], d["step"], d.get("agent_id")))
        elif p.endswith(".sqlite"):
            con = sqlite3.connect("file:%s?mode=ro" % os.path.abspath(p), uri=True)
            for t in [x[0] for x in con.execute("select name from sqlite_master where type='table' and name in ('env', 'agents', 'configuration')")]:
                con.row_factory = sqlite3.Row
                rows += [(p, t) + tuple(dict(r).get(k) for k in ("simulation_id", "params_id", "iteration_id", "step", "agent_id")) for r in con.execute("select * from " + t)]
                con.row_factory = None
            con.close()
    log("csv", n=len(rows), u=len(set(rows)))
    text = out.getvalue()
    docs = []
    if o["convert"]:
        parts, cur = [], []
        for line in text.splitlines():
            if line.startswith("agent_reporters:") and cur:
                parts.append(cur)
                cur = []
            cur.append(line)
        parts.append(cur)
        for part in parts:
            if not any(line.strip() for line in part):
                continue
            d = yaml.safe_load("\n".join(part))
            docs.append({"c": d["model"].rsplit(".", 1)[-1], "name": d["name"], "seed": str(d["seed"]), "n": d["iterations"], "t": lim(d["max_time"]), "s": steps(d["max_steps"]),
                         "p": flat(d["parameters"]), "m": matrix(d["matrix"])})
    log("exit", fs=[list(f) for f in fs], docs=docs)


if __name__ == "__main__":
    common.main(run, limit=100)
