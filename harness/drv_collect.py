"""Models with every kind of reporter, and the data collected from them (Collect.tla)."""
import math
import random
import common
from common import T, U, INF

soil = common.soil_module()
from soil import Environment, BaseAgent, Simulation, report
from soil import environment as senv
from soil import agents as sagents
from soil.agents.fsm import state
from soil import time as stime
from mesa import Agent as MesaAgent


def norm(x):
    """A value, as text"""
    try:
        import numpy as np
        if isinstance(x, np.generic):
            x = x.item()
    except ImportError:
        pass
    if x is None or (isinstance(x, float) and math.isnan(x)):
        return ""
    if isinstance(x, bool):
        return "b%d" % x
    if isinstance(x, (int, float)):
        return "n%r" % float(x)
    if isinstance(x, str):
        return "s" + x
    return "?" + type(x).__name__


class A(BaseAgent):
    v = 0
    script = None
    n = 0

    def step(self):
        acts = self.script or []
        if self.n >= len(acts):
            return None
        act = acts[self.n]
        self.n += 1
        if act["set"] is not None:
            self.v = act["set"]
        if act["x"] is not None:
            self.model.x = act["x"]
        if act["y"] is not None:
            self.model.y = self.model.y + act["y"]
        if act["row"] and self.model.tabs:
            t = self.model.tabs[act["row"] % len(self.model.tabs)]
            row = {"who": self.unique_id, "what": act["set"]}
            if act["row"] % 3 == 0:
                row.pop("what")
            self.model.add_row(t, row)
        if act["add"]:
            self.model.add_agent([A, B, C][act["add"] - 1], v=act["set"], script=[dict(act, die=True, add=0)] if self.model.mortal else [])
        if act["kill"]:
            others = [a for a in self.model.schedule.agents if a is not self and not isinstance(a, P)]
            if others:
                others[act["kill"] % len(others)].die()
        if act["die"]:
            return self.die()
        return U(act["d"]) if act["d"] else None


class B(A):
    z = "zz"


class C(B):
    pass


class M(sagents.FSM):
    """An FSM agent"""
    v = 5
    script = None

    @state(default=True)
    def one(self):
        self.v = self.v + 1
        return self.two

    @state
    def two(self):
        return self.one


class P(MesaAgent):
    """A plain mesa agent"""

    def __init__(self, unique_id, model, script=None):
        super().__init__(unique_id, model)
        self.v = 3
        self.script = script

    def step(self):
        self.v += 1
        return None


# name -> (how the value is obtained from the model, independently)
MODEL = {
    "x": lambda m: m.x,
    "twice": lambda m: m.y * 2,
    "alias": lambda m: m.y,
    "prop": lambda m: m.y + 1,
    "meth": lambda m: m.y + 2,
    "given": lambda m: m.y + 3,
    "givenattr": lambda m: m.x,
    "own_count": lambda m: m.y - 7,
    "count_b": lambda m: sum(isinstance(a, B) for a in m.schedule.agents),
}
AGENT = {
    "v": lambda a: a.v,
    "vf": lambda a: (a.v, a.unique_id)[1],
    "z": lambda a: getattr(a, "z", None),
    "onlyb": lambda a: a.v if isinstance(a, B) else None,
    "onlyfm": lambda a: a.v * 10 if isinstance(a, M) else None,
    "state_id": lambda a: getattr(a, "state_id", None),
    # Attributes of the model, not of the agents
    "mx": lambda a: None,
    "my": lambda a: None,
    "ga": lambda a: a.v,
    "gb": lambda a: a.unique_id * 2,
}


def make(sc, log, quiet):
    use, ause = sc["model"], sc["agent"]
    base = {"env": Environment, "net": senv.NetworkEnvironment, "evt": senv.EventedEnvironment, "base": senv.BaseEnvironment}[sc["base"]]
    ns = {}

    if "prop" in use:
        ns["prop"] = report(property(lambda self: self.y + 1))
    if "meth" in use:
        def meth(self):
            return self.y + 2
        ns["meth"] = report(meth)
    if sc["inherit"]:
        # What is reported by a class is also reported by those that derive from it
        base = type("Parent", (type("Mid", (base,), ns),), {})
        ns = {}

    def init(self):
        self.x = 0
        self.y = 0
        for a in sc["agents"]:
            acls = {"A": A, "B": B, "C": C, "M": M, "P": P}[a["cls"]]
            if a["t"] or acls is P:
                # This one acts later on
                self.schedule.add(acls(unique_id=self.next_id(), model=self, script=a["script"]), when=U(a["t"]))
            else:
                self.add_agent(acls, script=a["script"])
        if "x" in use:
            self.add_model_reporter("x")
        if "twice" in use:
            self.add_model_reporter("twice", lambda m: m.y * 2)
        if "alias" in use:
            self.add_model_reporter("alias", "y")
        if "count_b" in use:
            self.add_model_reporter("count_b", lambda m: m.count_agents(agent_class=B))
        if "v" in ause:
            self.add_agent_reporter("v")
        if "vf" in ause:
            self.add_agent_reporter("vf", lambda a: a.unique_id)
        if "z" in ause:
            self.add_agent_reporter("z")
        if "state_id" in ause:
            self.add_agent_reporter("state_id")
        if "onlyb" in ause:
            self.add_agent_reporter("onlyb", "v", agent_type=B)
        if "mx" in ause:
            self.add_agent_reporter("mx", "x", agent_type=B)
        if "my" in ause:
            self.add_agent_reporter("my", "y")
        if "onlyfm" in ause:
            self.add_agent_reporter("onlyfm", lambda a: a.v * 10, agent_type=M)
    ns["init"] = init
    ns["tabs"] = sc["tables"]
    ns["mortal"] = sc["mortal"]

    def add_row(self, t, row):
        if not quiet[0]:
            log("row", t=t, r=[norm(row["who"]), norm(row.get("what"))])
        self.datacollector.add_table_row(t, row, ignore_missing="what" not in row)
    ns["add_row"] = add_row

    def moment(self):
        if quiet[0]:
            return
        g = [[str(a.unique_id), {k: norm(AGENT[k](a)) for k in ause}] for a in self.schedule.agents] if ause else []
        m = {k: norm(MODEL[k](self)) for k in use if k != "own_count"}
        m["agent_count"] = norm(len(self.schedule.agents)) if "own_count" not in use else norm(self.y - 7)
        log("moment", t=T(self.now), m=m, g=g)

    def __init__(self, *args, **kwargs):
        base.__init__(self, *args, **kwargs)
        moment(self)
    ns["__init__"] = __init__

    def step(self):
        base.step(self)
        moment(self)
    ns["step"] = step
    return type("Env", (base,), ns)


def run(sc, log):
    quiet = [False]
    common.set_scale([4, 4, 2 ** 14][sc["id"] % 3])
    cls = make(sc, log, quiet)
    mr, ar = {}, {}
    if "given" in sc["model"]:
        mr["given"] = lambda m: m.y + 3
    if "givenattr" in sc["model"]:
        mr["givenattr"] = "x"
    if "own_count" in sc["model"]:
        mr["agent_count"] = lambda m: m.y - 7
    if "ga" in sc["agent"]:
        ar["ga"] = "v"
    if "gb" in sc["agent"]:
        ar["gb"] = lambda a: a.unique_id * 2

    def data(env):
        for t in sc["tables"]:
            df = env.datacollector.get_table_dataframe(t)
            log("table", t=t, rows=[[norm(a), norm(b)] for a, b in zip(df["who"], df["what"])])
        for bystep in (False, True):
            df = env.model_df(steps=bystep)
            cols = [c for c in df.columns if c != "time"]
            rows = [{"i": int(ix) if bystep else T(ix), "v": {c: norm(df[c].iloc[n]) for c in cols}} for n, ix in enumerate(df.index)]
            log("model", rows=rows, bystep=bystep, cols=cols)
            if bystep:
                # The time of each record
                log("model", rows=[{"i": T(t), "v": r["v"]} for t, r in zip(df["time"], rows)], bystep=False, cols=cols)
            if sc["agent"]:
                df = env.agent_df(steps=bystep)
                rows = [{"i": int(ix[0]) if bystep else T(ix[0]), "a": str(ix[1]), "v": {c: norm(df[c].iloc[n]) for c in sc["agent"]}}
                        for n, ix in enumerate(df.index)]
                log("agents", rows=rows, bystep=bystep)

    kw = {}
    tables = {t: ["who", "what"] for t in sc["tables"]}
    if sc["sched"] == "pq":
        kw["schedule_class"] = stime.PQueueActivation
    if sc["how"] == "direct":
        env = cls(model_reporters=dict(mr), agent_reporters=dict(ar), tables=tables, **kw)
        for n in range(sc["steps"]):
            if n in sc["peeks"]:
                data(env)
            if not env.running:
                if not sc["more"]:
                    break
                sc["more"] -= 1
            env.step()
    else:
        if sc["how"] == "params":
            sim = Simulation(model=cls, parameters=dict(kw, model_reporters=dict(mr), agent_reporters=dict(ar)), tables=tables, max_steps=sc["steps"], exporters=[], dump=False)
        else:
            sim = Simulation(model=cls, parameters=kw, model_reporters=dict(mr), agent_reporters=dict(ar), tables=tables, max_steps=sc["steps"], exporters=[], dump=False)
        env = sim.run()[0]
    if sc["noise"]:
        quiet[0] = True
        other = cls(model_reporters={"given": lambda m: 77}, agent_reporters={"ga": lambda a: 77}, tables=tables)
        other.step()
        quiet[0] = False
    data(env)


if __name__ == "__main__":
    common.main(run)
