"""Simulations with any matrix, parameters, iterations and exporters (Sweep.tla)."""
import os
import tempfile
from functools import partial
import common
from copy import deepcopy
from dataclasses import fields

soil = common.soil_module()
import networkx as nx
from soil import Environment, Simulation, BaseAgent
from soil import environment as senv
from soil import exporters as sexp

NAMES = ["a", "b", "c", "d", "model_reporters", "agent_reporters"]
VALUES = [0, 1, 2, -1, 1.5, "x", "1", "", [1, 2], [1], {"k": 1}, {"k": 2}, None, "None", False, (1, 2), int, str]
# Reporters that are given as parameters
MODEL_REPORTERS = [{"r1": "a0"}, {"r2": "a0"}, {"r1": "a0", "r2": "a0"}, {}]
AGENT_REPORTERS = [{"q1": "name"}, {"q2": "name"}, {}]


def enc(v):
    return "%s:%r" % (type(v).__name__, v)


def pairs(params):
    return sorted([k, enc(v)] for (k, v) in params.items())


current = {}


class A(BaseAgent):
    n = 0

    def step(self):
        self.n += 1
        self.model.count += 1
        if self.n >= current["life"]:
            return self.die()


def number(env):
    return current["envs"].setdefault(id(env), len(current["envs"]) + 1)


def own(env):
    """The parameters of a model, as it sees them"""
    res = {k: v for k, v in vars(env).items() if k in NAMES}
    # These are given to the collector
    for k in ("model_reporters", "agent_reporters"):
        if k in env.given:
            res[k] = env.given[k]
    return res


class Model(Environment):
    def __init__(self, **kwargs):
        current["keep"].append(self)   # so that ids are not reused
        self.given = {}
        self.a0 = 7
        self.count = 0
        super().__init__(**kwargs)

    def init(self):
        for _ in range(current["agents"]):
            self.add_agent(A)
        extra = current["reps"](self)
        self.given.update(extra)
        current["log"]("made", c=pairs(own(self)), i=int(self.id), e=number(self))


class Bare(senv.BaseEnvironment):
    __init__ = Model.__init__
    init = Model.init

    def __init__(self, **kwargs):
        current["keep"].append(self)
        self.given = {}
        self.a0 = 7
        self.count = 0
        senv.BaseEnvironment.__init__(self, **kwargs)


def finished(env):
    if not env.running:
        return True
    return current["steps"] is not None and env.schedule.steps >= current["steps"]


class Rec(sexp.Exporter):
    def tag(self):
        return type(self).__name__

    def sim_start(self):
        current["log"]("start", x=self.tag())

    def sim_end(self):
        current["log"]("end", x=self.tag())

    def iteration_end(self, env, params, params_id):
        current["log"]("told", x=self.tag(), e=number(env), c=pairs(params), i=int(env.id), pid=str(params_id), done=finished(env))


class RecA(Rec):
    pass


class RecB(Rec):
    pass


class RecC(Rec):
    pass


EXPORTERS = {"RecA": RecA, "RecB": RecB, "RecC": RecC}
OTHERS = {"summary": "summary", "default": "default", "SQLite": "SQLite", "csvcls": sexp.csv, "dummycls": "soil.exporters.dummy", "gexf": "gexf"}


def snapshot(sim):
    res = {}
    for f in fields(sim):
        res[f.name] = repr(getattr(sim, f.name))
    return res


def columns(env):
    cols = set(env.model_df().columns) | set(env.datacollector.model_reporters)
    cols -= {"agent_count", "time", "step"}
    if env.datacollector.agent_reporters:
        cols |= set(env.agent_df().columns)
    return sorted(cols)


def run(sc, log):
    outdir = tempfile.mkdtemp(dir=os.getcwd())
    # names of the reporters that the parameters may add
    reps = []
    for (k, lst) in (("model_reporters", MODEL_REPORTERS), ("agent_reporters", AGENT_REPORTERS)):
        for v in lst:
            reps.append([[k, enc(v)], sorted(v)])

    def value(k, ix):
        if k == "model_reporters":
            return MODEL_REPORTERS[ix % len(MODEL_REPORTERS)]
        if k == "agent_reporters":
            return AGENT_REPORTERS[ix % len(AGENT_REPORTERS)]
        return deepcopy(VALUES[ix % len(VALUES)])

    sims = {}
    for r in sc["runs"]:
        fixed = {k: value(k, ix) for (k, ix) in r["fixed"]}
        matrix = {k: [value(k, ix) for ix in ixs] for (k, ixs) in r["matrix"]}
        smr = {n: "a0" for n in r["mr"]}
        sar = {n: "name" for n in r["ar"]}

        def which(env, fixed=fixed, matrix=matrix, smr=smr, sar=sar):
            """The reporters that the model was given by its parameters"""
            res = {}
            for k, dc in (("model_reporters", env.datacollector.model_reporters), ("agent_reporters", env.datacollector.agent_reporters)):
                options = matrix.get(k, [fixed[k]] if k in fixed else [])
                mine = {n: v for n, v in dict(dc).items() if n not in ("agent_count", "time") and n not in smr and n not in sar}
                for o in options:
                    if set(o) == set(mine):
                        res[k] = o
                        break
                else:
                    if options:
                        res[k] = {"?": sorted(mine)}
            return res
        current.clear()
        current.update(log=log, envs={}, keep=[], agents=r["agents"], life=r["life"], steps=r["steps"], reps=which)
        exps = [EXPORTERS[x] for x in r["exps"]]
        if r["inner"] and exps:
            # Exporters within another one
            exps = [partial(sexp.default, exporter_cls=exps)]
        others = [OTHERS[x] for x in r["others"]]
        allx = exps + others if r["first"] else others + exps
        cls = Model if r["cls"] == "env" else Bare
        kw = dict(iterations=r["n"], exporters=allx, max_steps=r["steps"], dump=r["dump"], outdir=outdir, model_reporters=smr, agent_reporters=sar,
                  parameters=fixed, matrix=matrix)
        log("begin", fixed=pairs(fixed), matrix=[[k, [enc(v) for v in vs]] for k, vs in matrix.items()], n=r["n"], exps=r["exps"], mr=sorted(smr) + sorted(sar), reps=reps)
        how = r["how"]
        same = True
        if how == "soilrun":
            before = repr((fixed, matrix, smr, sar))
            res = soil.run(cls, **kw)
            same = before == repr((fixed, matrix, smr, sar))
        elif how == "envrun":
            before = repr((fixed, matrix, smr, sar))
            res = cls.run(**kw)
            same = before == repr((fixed, matrix, smr, sar))
        else:
            if how == "sim":
                sim = Simulation(model=cls, name="s", **kw)
                sims["last"] = sim
                before = snapshot(sim)
                res = sim.run()
            elif how == "kwargs":
                # A simulation with other values, which are replaced for this run
                sim = sims.get("last") or Simulation(model=cls, name="s", parameters={"a": 99, "d": 1}, matrix={"a": [7, 8]}, exporters=[], dump=False)
                before = snapshot(sim)
                res = sim.run(model=cls, **kw)
            same = before == snapshot(sim)
        log("returned", res=[{"e": number(e), "c": pairs(own(e)), "i": int(e.id), "cols": columns(e)} for e in res])
        log("same", same=same)
        if how == "sim" and r["again"]:
            current.update(envs={}, keep=[])
            log("begin", fixed=pairs(fixed), matrix=[[k, [enc(v) for v in vs]] for k, vs in matrix.items()], n=r["n"], exps=r["exps"], mr=sorted(smr) + sorted(sar), reps=reps)
            res = sim.run()
            log("returned", res=[{"e": number(e), "c": pairs(own(e)), "i": int(e.id), "cols": columns(e)} for e in res])
            log("same", same=before == snapshot(sim))


if __name__ == "__main__":
    common.main(run)
