"""The same iterations in different contexts: processes (with different hash seeds),
orders, other runs and exporters (Repro.tla)."""
import hashlib
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
import common
from common import T

soil = common.soil_module()
import networkx as nx
from soil import Environment, Simulation, BaseAgent
from soil import agents as sa
from soil import exporters as sexp
from soil import time as stime
from soil.agents.fsm import state

SCHEDS = {"timed": stime.TimedActivation, "pq": stime.PQueueActivation, "ordered": stime.OrderedTimedActivation, "shuffled": stime.ShuffledTimedActivation}


def digest(x):
    return hashlib.sha256(json.dumps(x, sort_keys=True, default=repr).encode()).hexdigest()[:12]


class Common:
    def note(self, *what):
        self.model.history.append([self.now, self.unique_id] + list(what))

    def act(self):
        r = self.random.random()
        self.note(type(self).__name__, r, self.prob(0.5))
        if r < 0.1 and len(self.model.schedule.agents) < 25:
            b = self.model.add_agent(Walker)
            self.note("new", b.unique_id)
        elif r < 0.2 and len(self.model.schedule.agents) < 25:
            b = self.model.add_node(Node)
            self.note("node", b.unique_id, str(b.node_id))
        elif r < 0.3:
            self.note("all", [a.unique_id for a in self.get_agents(limit=5)])
        elif r < 0.35:
            self.model.add_agents([Walker, Listener], k=2, weights=[1, 3])
        elif r < 0.45:
            self.model.broadcast("m%s" % r, sender=self)
        elif r < 0.5:
            self.die()
            return None
        return self.random.choice([None, 0.5, 1, 2])


class Walker(Common, BaseAgent):
    def step(self):
        return self.act()


class Listener(Common, sa.EventedAgent):
    def step(self):
        self.note("got", [str(getattr(m, "payload", m)) for m in self.process_messages()])
        return self.act()


class Node(Common, sa.NetworkAgent, sa.FSM):
    @state(default=True)
    def one(self):
        self.note("n", [a.unique_id for a in self.iter_neighbors()])
        d = self.act()
        return (self.two, d) if d else self.two

    @state
    def two(self):
        d = self.act()
        if self.prob(0.3):
            return self.one
        return d


class Seq(Common, BaseAgent):
    def step(self):
        d = self.act()
        yield d or 1
        x = [self.random.random(), self.random.randint(0, 100)]
        self.random.shuffle(x)
        self.note("seq", x)


class Sick(Common, sa.SISaModel):
    def step(self):
        before = self.state_id
        res = super().step()
        self.note(before, self.state_id, self.content_neutral, self.discontent_content)
        return res


class Model(Environment):
    # Of the SISa agents
    neutral_discontent_spon_prob = 0.3
    neutral_discontent_infected_prob = 0.3
    neutral_content_spon_prob = 0.3
    neutral_content_infected_prob = 0.3
    discontent_neutral = 0.3
    discontent_content = 0.3
    variance_d_c = 0.1
    content_discontent = 0.3
    variance_c_d = 0.1
    content_neutral = 0.3
    standard_variance = 0.1
    history = None
    plan = ""

    def init(self):
        self.history = []
        # Drawn before anything else by the model itself
        self.sequence = [self.random.random() for _ in range(4)]
        if "walk" in self.plan:
            self.add_agents([Walker, Listener, Seq], k=4)
        if "seq" in self.plan:
            self.add_agent(Seq)
        if "late" in self.plan:
            self.create_network(generator="erdos_renyi_graph", n=7, p=0.3)
        if "pop" in self.plan and len(self.G):
            self.populate_network([Node, Walker], weights=[3, 1])
        if "sisa" in self.plan:
            for _ in range(4):
                self.add_agent(Sick)
            if len(self.G) > 1:
                self.G.add_edges_from(zip(list(self.G)[1:], self.G))
        if "nodes" in self.plan:
            for _ in range(3):
                self.add_node(Node)
        if not self.schedule.agents:
            self.add_agent(Walker)
        self.add_model_reporter("drawn", lambda m: len(m.history))
        self.add_agent_reporter("state_id", lambda a: a.get("state_id"))
        self.add_agent_reporter("name")


class Other(Environment):
    def init(self):
        self.add_agents([Walker, Listener], k=3)
        self.history = []


class Nosy(sexp.Exporter):
    """An exporter that looks at everything (but draws from its own sources)"""
    def iteration_end(self, env, params, params_id):
        random.random()
        env.model_df(), env.agent_df()


class Noisy(sexp.Exporter):
    def sim_start(self):
        random.seed(3)

    def iteration_end(self, *args, **kwargs):
        Other(seed="noise").step()


def df(frame):
    return frame.to_csv()


def result(m):
    g = [[str(n) for n in m.G.nodes], sorted([sorted([str(u), str(v)]) for (u, v) in m.G.edges])]
    pop = [[a.unique_id, type(a).__name__, str(getattr(a, "node_id", "")), str(a.get("state_id"))] for a in m.schedule.agents]
    h = [m.history, g, pop, df(m.model_df()), df(m.agent_df()), df(m.agent_df(steps=True)), m.schedule.steps, float(m.schedule.time), m.running]
    return digest(h), digest(m.sequence)


def params(p):
    """Parameters, by their description"""
    res = {"plan": p["plan"]}
    if p["sched"]:
        res["schedule_class"] = SCHEDS[p["sched"]]
    if p["net"] == "graph":
        res["topology"] = p["cache"].setdefault("g", nx.cycle_graph(6))
    elif p["net"] == "dict":
        res["topology"] = p["cache"].setdefault("g", nx.node_link_data(nx.path_graph(5)))
    elif p["net"] == "words":
        res["topology"] = p["cache"].setdefault("g", nx.relabel_nodes(nx.cycle_graph(9), lambda n: "node %d" % (n * 7919)))
    elif p["net"] == "er":
        res["network_generator"] = "erdos_renyi_graph"
        res["network_params"] = p["cache"].setdefault("p", {"n": 8, "p": 0.4})
    elif p["net"] == "ba":
        res["network_generator"] = nx.barabasi_albert_graph
        res["network_params"] = p["cache"].setdefault("p", {"n": 9, "m": 2})
    elif p["net"] == "complete":
        res["network_generator"] = "complete_graph"
        res["network_params"] = p["cache"].setdefault("p", {"n": 5})
    elif p["net"] == "geo":
        res["network_generator"] = "random_geometric_graph"
        res["network_params"] = p["cache"].setdefault("p", {"n": 8, "radius": 0.5})
    if p["agents"] and p["net"] != "":
        res["agent_class"] = [Node, Walker]
    return res


EXPORTERS = {"default": "default", "csv": sexp.csv, "sql": sexp.SQLite, "nosy": Nosy, "noisy": Noisy, "summary": sexp.summary}


def context(sc, c, log):
    """Run the operations of a context"""
    ps = [dict(p, cache={}) for p in sc["params"]]
    steps = sc["steps"]
    scratch = tempfile.mkdtemp(dir=os.getcwd())

    def ran(s, p, i, m):
        h, r = result(m)
        log("ran", s=s, p=p, i=i, h=h, r=r)

    for op in c["ops"]:
        o = op["op"]
        if o == "noise":
            random.seed(op["n"])
            other = Other(seed=op["n"])
            other.step()
        elif o == "direct":
            # Several environments, whose steps are interleaved
            envs = [("int-" + s if i else "direct-" + s, p, Model(seed=int.from_bytes(s.encode(), 'big') if i else s, **params(ps[p]))) for (s, p, i) in op["envs"]]
            for _ in range(steps):
                for (_s, _p, m) in envs:
                    if m.running:
                        m.step()
                    random.random()
            for (s, p, m) in envs:
                ran(s, p, 0, m)
        else:
            kw = dict(seed=op["s"], iterations=op["n"], max_steps=steps, dump=op["dump"], outdir=scratch,
                      exporters=[EXPORTERS[e] for e in op["exp"]], **op.get("extra", {}))
            if o == "sim":
                sim = Simulation(model=Model, name=op["name"], parameters=params(ps[op["p"]]), **kw)
                for _ in range(op["times"]):
                    for m in sim.run():
                        ran(op["s"], op["p"], int(m.id), m)
            elif o == "envrun":
                for m in Model.run(parameters=params(ps[op["p"]]), **kw):
                    ran(op["s"], op["p"], int(m.id), m)
            elif o == "soilrun":
                for m in soil.run(Model, parameters=params(ps[op["p"]]), **kw):
                    ran(op["s"], op["p"], int(m.id), m)
            elif o == "again":
                sim = Simulation(model=Model, name="again", parameters=params(ps[op["p"]]), **kw)
                for m in sim.run(seed="something else", iterations=1):
                    ran("something else", op["p"], int(m.id), m)
                for m in sim.run(name="renamed"):
                    ran(op["s"], op["p"], int(m.id), m)
            elif o == "matrix":
                # A matrix with the plans of the parameters (all the rest is the same)
                base = dict(ps[0], cache={})
                plans = op["plans"]
                sim = Simulation(model=Model, name="sweep", parameters=params(base), matrix={"plan": plans}, **kw)
                for m in sim.run():
                    # Numbered after the parameters with that plan
                    p = next(n for n, q in enumerate(ps) if q["plan"] == m.plan and all(q[k] == base[k] for k in ("sched", "net", "agents")))
                    ran(op["s"], p, int(m.id), m)
    shutil.rmtree(scratch, ignore_errors=True)


def worker():
    part, hashes = None, None

    def one(sc, log):
        mine = [c for c in sc["contexts"] if c["hash"] == int(os.environ["PYTHONHASHSEED"])]
        for c in mine:
            context(sc, c, log)
    common.main(one)


def parent():
    scen_file, out_file = sys.argv[1:3]
    scens = json.load(open(scen_file))
    procs = []
    tmp = tempfile.mkdtemp(prefix="soilverif_")
    try:
        for h in sorted({c["hash"] for s in scens for c in s["contexts"]}):
            sf, of = os.path.join(tmp, "s%d" % h), os.path.join(tmp, "o%d" % h)
            order = list(scens)
            random.Random(h).shuffle(order)
            json.dump(order, open(sf, "w"))
            e = dict(os.environ, PYTHONHASHSEED=str(h), REPRO_WORKER="1")
            procs.append((subprocess.Popen([sys.executable, __file__, sf, of], env=e, cwd=tmp), of))
        got = {}
        for p, of in procs:
            p.wait()
            if os.path.exists(of):
                for line in open(of):
                    t = json.loads(line)
                    got.setdefault(t["id"], []).append(t["ev"])
        with open(out_file, "w") as out:
            for s in scens:
                evs = got.get(s["id"], [])
                if len(evs) == len(procs):
                    out.write(json.dumps({"id": s["id"], "cfg": s.get("cfg", {}), "ev": [e for ev in evs for e in ev]}) + "\n")
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    worker() if os.environ.get("REPRO_WORKER") else parent()
