"""What agents and environments log, and that it does not matter (Log.tla)."""
import hashlib
import logging
import random
import common

soil = common.soil_module()
import networkx as nx
from soil import Environment, BaseAgent, FSM, Simulation, report
from soil import agents as sagents
from soil.agents.fsm import state

now = {}


class Catch(logging.Handler):
    def emit(self, record):
        now["records"].append((record.levelno, record.getMessage(), record))


catch = Catch()
catch.setLevel(0)
logging.getLogger("soil").addHandler(catch)

LEVELS = [10, 20, 30, 40]
TEXTS = ["plain", "100% sure", "{braces} {0}", "", "two  words", "%s %d"]


def say(x):
    """An agent or environment logs something"""
    rnd = now["rnd"]
    isenv = isinstance(x, Environment)
    now["n"] += 1
    tag = "#%d#" % now["n"]
    first = tag + rnd.choice(TEXTS)
    more = rnd.sample([1, None, "word", 2.5, ("t", 1), [], False], rnd.randint(0, 2))
    extra = {k: rnd.choice([0, None, "v", 3.5, [1]]) for k in rnd.sample(["a", "key", "k", "v", "name"], rnd.randint(0, 2))}
    how = rnd.choice(["log", "log", "default"] + ([] if isenv else ["debug", "info"]))
    now["records"].clear()
    if how == "log":
        lv = rnd.choice(LEVELS)
        x.log(first, *more, level=lv, **extra)
    elif how == "default":
        lv = 20
        x.log(first, *more, **extra)
    else:
        lv = 10 if how == "debug" else 20
        getattr(x, how)(first, *more, **extra)
    out = []
    for level, text, record in now["records"]:
        if tag not in text:
            continue
        rest = text[text.index(tag):]
        pos, there = 0, True
        for piece in [first] + [str(m) for m in more] + ["%s=%s" % kv for kv in extra.items()]:
            i = rest.find(piece, pos)
            there = there and i >= 0
            pos = i + len(piece)
        head = text[:text.index(tag)]
        if isenv:
            own = record.name == x.logger.name
        else:
            own = repr(x) in head and "(%d)" % x.unique_id in head
        out.append({"v": level, "own": own, "t": str(x.now) in head, "text": there})
    now["log"]("say", x=now["names"][id(x)], v=lv, out=out)


class Talker:
    x = 0

    def work(self):
        self.count = getattr(self, "count", 0) + 1
        self.model.total += self.model.random.randint(0, 9) * self.count
        if now["loud"]:
            for _ in range(now["rnd"].randint(0, 2)):
                say(self)
            if now["rnd"].random() < 0.3:
                say(self.model)
        if now["n"] and now["rnd"].random() < 0.1:
            lv = now["rnd"].choice(LEVELS)
            self.logger.setLevel(lv)
            now["log"]("level", x=now["names"][id(self)], v=lv)


class Plain(Talker, BaseAgent):
    def step(self):
        self.work()


class Gen(Talker, BaseAgent):
    def step(self):
        while True:
            self.work()
            yield self.delay(self.model.random.choice([1, 2, 0.5]))


class Net(Talker, sagents.NetworkAgent):
    def step(self):
        self.work()
        self.model.total += len(self.get_neighbors())
        if self.count == 3 and self.unique_id % 2:
            self.die()


class Machine(Talker, FSM):
    @state(default=True)
    def one(self):
        self.work()
        return self.two

    @state
    def two(self):
        self.work()
        return self.one if self.count < 4 else self.die()


class Full(Talker, sagents.Agent):
    @state(default=True)
    def one(self):
        self.process_messages()
        self.work()
        self.model.broadcast("m", sender=self)

    def on_receive(self, msg, sender=None):
        self.model.total += 1


CLASSES = [Plain, Gen, Net, Machine, Full]


class Model(Environment):
    def init(self):
        self.total = 0
        log = now["log"]
        e = "env%d" % now["run"]
        now["names"][id(self)] = e
        log("logger", x=e, p="sim%d" % now["run"], v=0)
        if now["levels"][2]:
            self.logger.setLevel(now["levels"][2])
            log("level", x=e, v=now["levels"][2])
        for i, c in enumerate(self.kinds):
            a = self.add_agent(CLASSES[c])
            name = "%s.a%d" % (e, i)
            now["names"][id(a)] = name
            log("logger", x=name, p=e, v=0)
            if i == 0 and now["levels"][3]:
                a.logger.setLevel(now["levels"][3])
                log("level", x=name, v=now["levels"][3])
        now["keep"].append(self)

    @report
    @property
    def nothing(self):
        return None

    @report
    @property
    def several(self):
        return tuple(range(self.total % 3))

    @report
    def some(self):
        return {"a": self.total}


def digest(env):
    df = env.model_df(steps=True)
    return hashlib.sha1(repr([[list(map(repr, r)) for r in df.values.tolist()], env.total, env.now, env.schedule.steps, env.random.random(),
                              [(a.unique_id, a.count, a.alive) for a in env.schedule.agents]]).encode()).hexdigest()[:12]


def run(sc, log):
    rnd = random.Random(str(sc["seed"]))
    logging.disable(logging.NOTSET)
    root = logging.getLogger("soil")
    now.update(log=log, names={}, records=[], n=0, keep=[], rnd=rnd, run=0)
    kinds = [rnd.randrange(len(CLASSES)) for _ in range(rnd.randint(1, 4))]
    steps = rnd.randint(2, 5)
    seed = str(rnd.randrange(100))
    try:
        for q in sc["levels"]:
            now["run"] += 1
            now["levels"] = q
            now["loud"] = rnd.random() < 0.8
            root.setLevel(q[0])
            log("level", x="soil", v=q[0])
            log("logger", x="sim%d" % now["run"], p="soil", v=q[1])
            sim = Simulation(name="s%s-%d" % (sc["id"], now["run"]), model=Model, max_steps=steps, seed=seed, level=q[1], exporters=[],
                             parameters=dict(kinds=kinds, topology=nx.path_graph(3)))
            for env in sim.run():
                log("ran", s="design", d=digest(env))
    finally:
        root.setLevel(logging.DEBUG)


if __name__ == "__main__":
    common.main(run)
