"""Histories of runs with any exporters and flags, and what they leave on disk (Store.tla)."""
import contextlib
import csv as csvlib
import hashlib
import io
import json
import math
import os
import shutil
import sqlite3
import tempfile
import urllib.parse
import common

os.environ.setdefault("MPLBACKEND", "Agg")
soil = common.soil_module()
import networkx as nx
from soil import Environment, Simulation, BaseAgent
from soil import agents as sa
from soil import analysis
from soil import exporters as sexp

DBX = ("default", "SQLite")
TABLES = ["env", "agents", "parameters", "configuration"]
EXP = {"default": "default", "SQLite": sexp.SQLite, "csv": sexp.csv, "csvname": "soil.exporters.csv", "gexf": "gexf", "YAML": sexp.YAML, "dummy": sexp.dummy,
       "summary": "summary", "graphdrawing": sexp.graphdrawing}
VALUES = [0, 1, 2.5, "x", "", [1, 2], {"k": "v"}, None, -3, "it's", 'say "hi"', "a\nb", "é,;"]
CONFIG = ["name", "seed", "iterations", "max_steps", "parameters", "matrix", "description"]


def norm(x):
    if hasattr(x, "item"):
        x = x.item()
    if x is None or (isinstance(x, float) and math.isnan(x)):
        return ""
    if isinstance(x, (bool, int, float)):
        return "n%r" % float(x)
    return "s%s" % x


def normcsv(x):
    """A value, as it is written in a CSV file"""
    if hasattr(x, "item"):
        x = x.item()
    if x is None or (isinstance(x, float) and math.isnan(x)):
        return ""
    s = str(x)
    try:
        return "n%r" % float(s)
    except ValueError:
        return "s" + s if s else ""


def text(v):
    return v if isinstance(v, str) else repr(v)


class Bag(dict):
    def __init__(self):
        super().__init__({"-": 0})

    def add(self, row):
        self[row] = self.get(row, 0) + 1


def label(sim, pid, it, step, values, agent=None):
    # Results with other reporters may be in the same table: they have no value for these
    return json.dumps([str(sim), str(pid), str(it), int(step), agent, sorted((k, v) for (k, v) in values.items() if v != "")])


current = {}


class A(BaseAgent):
    v = 0
    word = None

    def step(self):
        self.v += self.random.randint(0, 3)
        if current["words"]:
            self.word = self.random.choice(["one", "it's", "two,three", None])
        if current["tables"]:
            t = self.random.choice(current["tables"])
            row = {"who": self.unique_id, "what": self.v, "word": self.word}
            current["rows"].append((self.model, t, row))
            self.model.datacollector.add_table_row(t, row)
        if self.random.random() < 0.1 and len(self.model.schedule.agents) > 1:
            return self.die()
        return self.random.choice([None, 0.5])


class N(sa.NetworkAgent, A):
    def step(self):
        return A.step(self)


class Model(Environment):
    a = None
    b = None

    def init(self):
        current["made"] += 1
        if current["net"]:
            self.create_network(generator="erdos_renyi_graph", n=6, p=0.4)
            for i, (n, d) in enumerate(self.G.nodes(data=True)):
                if i % 2:
                    d["w"] = "w%d" % i
            if current["pos"]:
                for n, d in self.G.nodes(data=True):
                    d["pos"] = (n, 0.5)
            self.populate_network(N)
            if current["names"]:
                self.add_node(N)
            for i, (n, d) in enumerate(self.G.nodes(data=True)):
                if i % 3 == 1:
                    d.update({"agent_id": i, "two words": "x y", "f": 0.5})
        for _ in range(current["agents"]):
            self.add_agent(A)
        if current["mr"]:
            self.add_model_reporter("total", lambda m: sum(x.v for x in m.schedule.agents))
            self.add_model_reporter(ODD[current["bools"] % len(ODD)], lambda m: m.schedule.steps * 3)
            self.add_model_reporter("word", lambda m: m.random.choice(["x", "it's", "é", None, "a,b"]) if current["words"] else None)
        if current["bools"]:
            kinds = [[True, False], [True, None], [1, 0], [None], ["yes", "no"], [1.5, 2], [1, "a"], ["x", 2.5, True]][current["bools"] - 1]
            self.add_model_reporter("flag", lambda m: kinds[m.schedule.steps % len(kinds)])
            if current["ar"]:
                self.add_agent_reporter("aflag", lambda a: kinds[(a.unique_id + a.model.schedule.steps) % len(kinds)])
        if current["ar"]:
            # (records with no values are records)
            if not current["words"] or current["bools"] not in (2, 4):
                self.add_agent_reporter("v")
            if current["words"]:
                self.add_agent_reporter("word")


class Rec(sexp.Exporter):
    def iteration_end(self, env, params, params_id):
        current["told"].append((env, dict(params), params_id, self.simulation))


def walk(root):
    h = hashlib.sha256()
    for d, dirs, files in os.walk(root):
        dirs.sort()
        h.update(("D" + os.path.relpath(d, root)).encode())
        for f in sorted(files):
            p = os.path.join(d, f)
            h.update(("F" + os.path.relpath(p, root)).encode())
            h.update(hashlib.sha256(open(p, "rb").read()).digest())
    return h.hexdigest()[:16]


ODD = ["two words", "a-b", "100%", "it's", "x :y", 'a "b"', "select"]
LABELS = ("", "index", "level_0", "step", "agent_id", "simulation_id", "iteration_id", "params_id")


def read_db(path):
    """The content of a database, independently"""
    c = sqlite3.connect("file:%s?mode=ro" % urllib.parse.quote(path), uri=True)
    c.row_factory = sqlite3.Row
    res = {t: Bag() for t in TABLES}
    try:
        names = [r[0] for r in c.execute("select name from sqlite_master where type='table'")]
        for t in names:
            for r in c.execute('select * from "%s"' % t):
                r = dict(r)
                b = res.setdefault(t, Bag())
                if t in ("env", "agents"):
                    b.add(label(r["simulation_id"], r["params_id"], r["iteration_id"], r["step"], {k: norm(v) for k, v in r.items() if k not in LABELS},
                                r.get("agent_id")))
                elif t == "parameters":
                    if r.get("key") is None:
                        continue
                    b.add(json.dumps([str(r["simulation_id"]), str(r["params_id"]), str(r["iteration_id"]), r["key"], r["value"]]))
                elif t == "configuration":
                    b.add(json.dumps([str(r["simulation_id"])] + [r[k] for k in CONFIG]))
                else:
                    b.add(label(r["simulation_id"], r["params_id"], r["iteration_id"], 0, {k: norm(v) for k, v in r.items() if k not in LABELS}))
    finally:
        c.close()
    return res


def read_results(**kw):
    """The content of a database, with read_sql"""
    r = analysis.read_sql(**kw)
    res = {t: Bag() for t in TABLES}
    for (s, p, i, step), row in r.env.iterrows():
        res["env"].add(label(s, p, i, step, {k: norm(v) for k, v in row.items() if k not in LABELS}))
    if len(r.agents):
        for (s, p, i, step, a), row in r.agents.iterrows():
            res["agents"].add(label(s, p, i, step, {k: norm(v) for k, v in row.items() if k not in LABELS}, int(a)))
    ps = r.parameters
    if "key" in ps.columns and "value" in ps.columns:
        if len(ps) and not ps.reset_index().duplicated(["iteration_id", "params_id", "simulation_id", "key"]).any():
            # One column per parameter, unless the same run was stored several times
            res["parameters"].add("parameters without names")
        for (i, p, s), row in ps.iterrows():
            res["parameters"].add(json.dumps([str(s), str(p), str(i), row["key"], row["value"]]))
    else:
        for (i, p, s), row in ps.iterrows():
            for k in ps.columns:
                v = row[k]
                if isinstance(v, float) and math.isnan(v):
                    continue
                if v is None:
                    continue
                res["parameters"].add(json.dumps([str(s), str(p), str(i), k, v]))
    for s, row in r.config.iterrows():
        res["configuration"].add(json.dumps([str(s)] + [row[k] for k in CONFIG]))
    return res


def read_csv(path):
    """The rows of a CSV file, which may have several headers"""
    b = Bag()
    header = None
    for row in csvlib.reader(open(path, newline="", encoding="utf-8")):
        if "simulation_id" in row:
            header = row
            continue
        r = dict(zip(header, row))
        b.add(label(r["simulation_id"], r["params_id"], r["iteration_id"], r.get("step", 0), {k: normcsv(v) for k, v in r.items() if k not in LABELS},
                    int(r["agent_id"]) if "agent_id" in r else None))
    return b


def place(d):
    if "pos" in d:
        return "%g,%g" % tuple(d["pos"])
    if "viz" in d and "position" in d["viz"]:
        return "%g,%g" % (d["viz"]["position"]["x"], d["viz"]["position"]["y"])
    return ""


def graph(G):
    return {"nodes": sorted([str(n), str(sorted((k, str(v)) for k, v in d.items() if k not in ("agent", "pos", "viz", "label", "id"))), place(d)] for n, d in G.nodes(data=True)), "edges": sorted(sorted([str(u), str(v)]) for u, v in G.edges)}


def expected(told, exps, base):
    rows = {t: Bag() for t in TABLES}
    csvs, nets = {}, {}
    sims = {}
    for env, params, pid, sim in told:
        sims[sim.id] = sim
        mdf = env.model_df(steps=True)
        for step, row in mdf.iterrows():
            vals = row.to_dict()
            rows["env"].add(label(sim.id, pid, env.id, step, {k: norm(v) for k, v in vals.items()}))
            if "csv" in exps or "csvname" in exps:
                csvs.setdefault(os.path.join(base, "%s.env.csv" % env.id), Bag()).add(label(sim.id, pid, env.id, step, {k: normcsv(v) for k, v in vals.items()}))
        if current["ar"]:
            adf = env.agent_df(steps=True)
            for (step, a), row in adf.iterrows():
                vals = row.to_dict()
                rows["agents"].add(label(sim.id, pid, env.id, step, {k: norm(v) for k, v in vals.items()}, int(a)))
                if "csv" in exps or "csvname" in exps:
                    csvs.setdefault(os.path.join(base, "%s.agents.csv" % env.id), Bag()).add(label(sim.id, pid, env.id, step, {k: normcsv(v) for k, v in vals.items()}, int(a)))
        for e, t, vals in current["rows"]:
            if e is not env:
                continue
            rows.setdefault(t, Bag()).add(label(sim.id, pid, env.id, 0, {k: norm(v) for k, v in vals.items()}))
            if "csv" in exps or "csvname" in exps:
                csvs.setdefault(os.path.join(base, "%s.%s.csv" % (env.id, t)), Bag()).add(label(sim.id, pid, env.id, 0, {k: normcsv(v) for k, v in vals.items()}))
        for k, v in params.items():
            rows["parameters"].add(json.dumps([sim.id, pid, env.id, k, text(v)]))
        if "gexf" in exps:
            nets[os.path.join(base, "%s.gexf" % env.id)] = graph(env.G)
    for sim in sims.values():
        rows["configuration"].add(json.dumps([sim.id] + [text(getattr(sim, k)) for k in CONFIG]))
        if "default" in exps or "YAML" in exps:
            nets[os.path.join(base, "%s.dumped.yml" % sim.id)] = sim.to_yaml()
    return rows, csvs, nets


def shown(told, out):
    """Whether the tables are in the output: a row for each record, and every value"""
    dfs = []
    for env, params, pid, sim in told:
        dfs.append((sim.id, pid, env.model_df(steps=True)))
        if current["ar"]:
            dfs.append((sim.id, pid, env.agent_df(steps=True)))
    for sid in {x[0] for x in dfs}:
        if out.count(sid) < sum(len(df) for s, _, df in dfs if s == sid):
            return False
    for sid, pid, df in dfs:
        if len(df) and pid not in out:
            return False
        for c in df.columns:
            for v in df[c]:
                if not (v is None or (isinstance(v, float) and math.isnan(v))) and str(v).replace('"', '""') not in out and str(v) not in out:
                    return False
    return True


def whole(e):
    """Who is in each node, and where each agent is"""
    return json.dumps([sorted([str(n), str(sorted(d)), str(d["agent"].unique_id if d.get("agent") is not None else "")] for n, d in e.G.nodes(data=True)),
                       sorted([a.unique_id, str(getattr(a, "node_id", ""))] for a in e.schedule.agents)])


def data(envs):
    h = hashlib.sha256()
    for t in sorted(e.model_df().to_csv() + (e.agent_df().to_csv() if current["ar"] else "") + json.dumps(graph(e.G)) + whole(e) for e in envs):
        h.update(t.encode())
    return h.hexdigest()[:16]


def run(sc, log):
    back = os.getcwd()
    home = tempfile.mkdtemp(dir=back)
    os.chdir(home)
    try:
        story(sc, log, home)
    finally:
        os.chdir(back)
        shutil.rmtree(home, ignore_errors=True)


def story(sc, log, home):
    seen = {}   # path of a database -> how to read it by name
    csvpaths, netpaths = set(), set()
    sims = {}
    called = dict(zip("st", sc.get("called", "st")))
    if sc["foreign"]:
        for n in called.values():
            os.makedirs(os.path.join("soil_output", n))
            open(os.path.join("soil_output", n, "notes.txt"), "w").write("mine")
    log("disk", h=walk(home))
    for r in sc["runs"]:
        r = dict(r, name=called[r["name"]])
        current.clear()
        current.update(told=[], made=0, rows=[], tables=r["tables"], agents=r["agents"], words=r["words"], bools=r["bools"], mr=r["mr"], ar=r["ar"], net=r["net"], pos=r["pos"], names=r["names"])
        params = {k: VALUES[ix % len(VALUES)] for k, ix in r["params"]}
        matrix = {k: [VALUES[ix % len(VALUES)] for ix in ixs] for k, ixs in r["matrix"]}
        exps = [EXP[x] for x in r["exps"]] + [Rec]
        kw = dict(name=r["name"], iterations=r["n"], max_steps=r["steps"], exporters=exps, dump=r["dump"], dry_run=r["dry"], overwrite=r["over"], backup=r["back"],
                  parameters=params, matrix=matrix, seed=r["seed"], tables={t: ["who", "what", "word"] for t in r["tables"]})
        root = "soil_output"
        if r["outdir"]:
            kw["outdir"] = os.path.join(home, r["outdir"])
            root = r["outdir"]
        if r["group"]:
            kw["group"] = r["group"]
        base = os.path.join(home, root, r["group"] or "", r["name"])
        key = json.dumps([r[k] for k in ("params", "matrix", "n", "steps", "seed", "agents", "net", "pos", "names", "name", "words", "bools", "mr", "ar", "tables")])
        again = False
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            if r["how"] == "soilrun":
                envs = soil.run(Model, **kw)
            elif r["how"] == "envrun":
                envs = Model.run(**kw)
            elif r["how"] == "kwargs":
                envs = Simulation(model=Model, seed="no", parameters={"c": 1}, exporters=["dummy"], name="other").run(**kw)
            else:
                if r["how"] == "again" and key in sims and sims[key][1] == {k: kw[k] for k in ("dump", "dry_run", "overwrite", "backup")}:
                    sim = sims[key][0]
                else:
                    sim = Simulation(model=Model, **kw)
                    sims[key] = (sim, {k: kw[k] for k in ("dump", "dry_run", "overwrite", "backup")})
                sim.exporters = exps
                sim.outdir = kw.get("outdir", os.path.join(home, "soil_output"))
                sim.group = r["group"] or None
                envs = sim.run()
        rows, csvs, nets = expected(current["told"], r["exps"], base)
        db = any(x in DBX for x in r["exps"])
        combos = 1
        for k, vs in matrix.items():
            combos *= len(vs)
        path = os.path.join(base, r["name"] + ".sqlite") if db else ""
        log("run", dump=r["dump"], dry=r["dry"], over=r["over"], back=r["back"], db=os.path.relpath(path, home) if db else "", rows=rows,
            csv=[[os.path.relpath(k, home), v] for k, v in csvs.items()], nets=[[os.path.relpath(k, home), v] for k, v in nets.items()],
            results=len(envs), expected=combos * r["n"], made=current["made"], what=key,
            shown=not ("csv" in r["exps"] or "csvname" in r["exps"]) or shown(current["told"], out.getvalue()), data=data(envs) if envs else "")
        log("disk", h=walk(home))
        csvpaths |= set(csvs)
        netpaths |= set(nets)
        if db:
            seen[path] = r["name"] if (root == "soil_output" and not r["group"]) else None
        if r["dry"] or not r["dump"]:
            continue
        if db and current["told"]:
            c = sqlite3.connect("file:%s?mode=ro" % urllib.parse.quote(path), uri=True)
            res = analysis.read_sql(fpath=path)
            env = current["told"][-1][0]
            for t, df, back in (("env", env.model_df(steps=True), res.env), ("agents", env.agent_df(steps=True) if current["ar"] else None, res.agents)):
                if df is not None:
                    log("cols", want=list(df.columns), got=[x[1] for x in c.execute('pragma table_info("%s")' % t)])
                    log("cols", want=list(df.columns), got=list(back.columns))
            c.close()
        # Look at everything
        for p, name in seen.items():
            rel = os.path.relpath(p, home)
            there = os.path.exists(p)
            log("db", p=rel, there=there, c=read_db(p) if there else {"env": Bag()})
            bdir = os.path.join(os.path.dirname(p), "backup")
            bs = []
            if os.path.isdir(bdir):
                bs = [read_db(os.path.join(bdir, f)) for f in sorted(os.listdir(bdir)) if f.startswith(os.path.basename(p))]
            log("backs", p=rel, cs=bs)
            if there:
                c = read_db(p)
                if len(c["env"]) > 1:
                    log("read", p=rel, c=read_results(name=name) if name and r["byname"] else read_results(fpath=rel))
        for p in csvpaths:
            there = os.path.exists(p)
            log("csv", p=os.path.relpath(p, home), there=there, b=read_csv(p) if there else Bag())
        for p in netpaths:
            there = os.path.exists(p)

            def content(q):
                if p.endswith(".yml"):
                    with open(q) as f:
                        return f.read()
                return graph(nx.read_gexf(q, node_type=str, version="1.2draft"))
            log("net", p=os.path.relpath(p, home), there=there, g=content(p) if there else "")
            bdir = os.path.join(os.path.dirname(p), "backup")
            if os.path.isdir(bdir):
                log("kept", p=os.path.relpath(p, home), gs=[content(os.path.join(bdir, f)) for f in sorted(os.listdir(bdir)) if f.startswith(os.path.basename(p) + "@")])
            else:
                log("kept", p=os.path.relpath(p, home), gs=[])


if __name__ == "__main__":
    common.main(run, limit=60)
