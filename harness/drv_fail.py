"""Code of the user that fails at any point of a run (Fail.tla)."""
import hashlib
import os
import random
import sqlite3
import common

soil = common.soil_module()
import networkx as nx
from soil import Environment, BaseAgent, FSM, Simulation, report
from soil import agents as sagents
from soil.agents.fsm import state
from soil import exporters as sexp
from soil import events as sevents
from soil import time as stime


class Custom(Exception):
    pass


KINDS = {k: getattr(__builtins__, k) for k in ("ValueError", "TypeError", "KeyError", "AttributeError", "RuntimeError", "IndexError", "ImportError",
                                               "AssertionError", "UserWarning", "KeyboardInterrupt", "StopIteration", "OSError", "LookupError")}
KINDS.update(Custom=Custom, TimedOut=sevents.TimedOut)
now = {}


def point(where):
    """The code of the user is running, and it may fail"""
    now["log"]("work")
    f = now["fault"]
    if f and f["w"] == where:
        f["left"] -= 1
        if f["left"] == 0:
            now["n"] += 1
            now["error"] = KINDS[f["x"]]("seed topology node_id agent" if now["n"] % 2 else "it fails")
            now["log"]("raise", x=now["n"])
            raise now["error"]


class Steps:
    x = 0

    def __init__(self, *args, **kwargs):
        super().__init__(*args, **kwargs)

    def init(self):
        point("agent")

    def work(self):
        point("step")
        self.x += 1
        self.model.total += self.unique_id * self.x + self.model.random.randint(0, 9)


class Plain(Steps, BaseAgent):
    def step(self):
        self.work()


class Net(Steps, sagents.NetworkAgent):
    def step(self):
        self.work()
        self.model.total += len(self.get_neighbors())


class Gen(Steps, BaseAgent):
    def step(self):
        while True:
            self.work()
            yield self.delay(1)


class Async(Steps, sagents.NetworkAgent):
    async def step(self):
        self.work()
        await self.delay(1)
        self.work()


class Machine(Steps, FSM):
    @state(default=True)
    def one(self):
        self.work()
        return self.two

    @state
    def two(self):
        self.work()
        yield self.delay(1)
        self.work()
        return self.one

    @state
    async def three(self):
        self.work()
        await self.delay(1)
        return self.one


class Evt(Steps, sagents.EventedAgent):
    def on_receive(self, msg, sender=None):
        point("receive")
        self.model.total += msg

    def step(self):
        self.process_messages()
        self.work()
        self.model.broadcast(1)


CLASSES = {c.__name__: c for c in (Plain, Net, Gen, Async, Machine, Evt)}


def generated(n, seed=None):
    point("generator")
    return nx.path_graph(n)


def generated_too(n):
    point("generator")
    return nx.path_graph(n)


def model_value(m):
    point("mreport")
    return m.total


def agent_value(a):
    point("areport")
    return a.x


class Model(Environment):
    tag = "here"

    def __init__(self, **kwargs):
        self.total = 0
        now["log"]("start")
        point("model")
        super().__init__(**kwargs)

    def init(self):
        point("init")
        for n in self.classes:
            if n == "net":
                self.populate_network([Net, Async])
            elif n == "nodes":
                self.add_node(Net)
            elif n == "at":
                for node in list(self.G)[:2]:
                    if "agent" not in self.G.nodes[node]:
                        self.add_agent(Net, node_id=node)
            elif n == "many":
                self.add_agents([Plain, Gen], k=2)
            else:
                self.add_agent(CLASSES[n])
        self.add_model_reporter("value", model_value)
        self.add_agent_reporter("x", agent_value)

    @report
    def method(self):
        point("mmethod")
        return self.total + 1

    @report
    @property
    def prop(self):
        point("mprop")
        return self.total + 2


SOURCE = '''
from __main__ import Model


class Mine(Model):
    tag = "%s"
'''


class First(sexp.Exporter):
    """Before the results are stored"""

    def __init__(self, *args, **kwargs):
        point("exporter")
        super().__init__(*args, **kwargs)

    def sim_start(self):
        point("sim_start")

    def iteration_end(self, env, params, params_id):
        point("iteration_end")

    def sim_end(self):
        point("sim_end")


class Last(sexp.Exporter):
    """After the results are stored"""

    def iteration_end(self, env, params, params_id):
        now["log"]("ready", b=[str(params_id), str(env.id)], d=digest(env), st=now["store"])
        point("late")
        with self.output("out-%s.txt" % env.id, mode="a") as f:
            f.write("something\n")
            point("output")
            f.write("else\n")


def short(v):
    return hashlib.sha1(repr(v).encode()).hexdigest()[:12]


def digest(env):
    """The data of a result, as it is in the database"""
    df = env.model_df(steps=True)
    return short([[int(i), float(r["time"]), int(r["value"]), int(r["method"]), int(r["prop"])] for i, r in df.iterrows()])


def database(path, runs):
    if not os.path.exists(path):
        return []
    con = sqlite3.connect(path)
    try:
        if not con.execute("select name from sqlite_master where name = 'env'").fetchall():
            return []
        res = {}
        for sim, par, it, step, time, value, method, prop in con.execute("select simulation_id, params_id, iteration_id, step, time, value, method, prop from env order by step"):
            res.setdefault((sim, par, it), []).append([int(step), float(time), int(value), int(method), int(prop)])
        return [[runs.get(sim, 0), [par, it], short(rows)] for (sim, par, it), rows in res.items()]
    finally:
        con.close()


def run(sc, log):
    rnd = random.Random(str(sc["seed"]))
    now.update(log=log, fault=None, n=0, store=False, error=None)
    work = os.path.join(os.getcwd(), "w%s" % sc["id"])
    os.makedirs(work)
    for t in ("one", "two"):
        with open(os.path.join(work, t + ".py"), "w") as f:
            f.write(SOURCE % t)
    designs = []
    for d in range(2):
        kw = dict(name="s", max_steps=rnd.randint(2, 4), iterations=rnd.randint(1, 2), seed="s%d" % rnd.randrange(100), outdir=os.path.join(work, "out"), dir_path=work)
        if rnd.random() < 0.4:
            t = ["one", "two"][d]
            kw.update(model="Mine", source_file=t + ".py")
        else:
            t = "here"
            kw["model"] = Model
        classes = rnd.choice([["Plain", "Net"], ["net"], ["net", "Machine", "Evt", "Evt"], ["Gen", "Async", "at"], ["nodes", "nodes", "Evt", "Evt", "Gen"], ["many", "Machine", "at"],
                              ["at", "net", "Evt", "Evt"]])
        par = dict(classes=classes)
        if rnd.random() < 0.6:
            par.update(network_generator=rnd.choice([generated, generated_too]), network_params={"n": rnd.randint(2, 4)})
        else:
            par["topology"] = nx.path_graph(3)
        sched = rnd.choice([None, None, stime.PQueueActivation, stime.PQueueActivation, stime.OrderedTimedActivation])
        if sched:
            par["schedule_class"] = sched
        kw["parameters"] = par
        if rnd.random() < 0.5:
            kw["matrix"] = {"level": [1, 2]}
        designs.append((kw, t))
    runs = {}
    kept = []
    number = 0
    db = os.path.join(work, "out", "s", "s.sqlite")

    def one(d, fault):
        nonlocal number
        kw, t = designs[d]
        store = rnd.random() < 0.8
        exps = [First, "default", Last]
        now["fault"] = None
        sim = Simulation(dump=store, exporters=exps, **kw)
        number += 1
        runs[sim.id] = number
        now["store"] = store
        now["fault"] = dict(fault, left=fault["n"]) if fault else None
        log("begin", r=number, s="design %d" % d, n=sim.iterations * (2 if "matrix" in kw else 1))
        try:
            res = sim.run()
        except common.Hang:
            raise
        except BaseException as ex:
            same = ex is now["error"]
            if isinstance(now["error"], StopIteration):
                # Python turns it into a RuntimeError when it leaves a generator or a coroutine
                e = ex
                while e is not None and not same:
                    e = e.__cause__
                    same = e is now["error"]
            log("caught", x=now["n"] if same else -1)
            if rnd.random() < 0.5:
                kept.append(ex)
        else:
            log("returned", n=len(res), d=short([(type(e).tag, t, e.id, digest(e), e.random.random(), e.schedule.steps, e.now) for e in res]))
            for e in res:
                if type(e).tag != t:
                    log("class-of-another-file")
        now["fault"] = None
        # What is left is not visible
        log("database", q=database(db, runs))

    one(0, None)
    one(1, None)
    for f in sc["faults"]:
        one(rnd.randrange(2), f)
        if rnd.random() < 0.7:
            one(rnd.randrange(2), None)
    one(0, None)
    one(1, None)


if __name__ == "__main__":
    common.main(run)
