"""Agents and environments as dictionaries (Dict.tla)."""
import random
import common

soil = common.soil_module()
import networkx as nx
from soil import Environment, BaseAgent, FSM
from soil import agents as sagents
from soil.agents.fsm import state

NAMES = ("p", "q", "r", "z", "_h", "_g", "prop", "meth", "model", "logger", "_inbox", "_state", "_coroutine")
VALUES = [0, 1, None, "", "text", False, (1, 2), [], 2.5, len]


class Common:
    @property
    def prop(self):
        return "of the class"

    def meth(self):
        return 1


class Plain(Common, BaseAgent):
    p = "d"

    def step(self):
        return None


class Gen(Common, BaseAgent):
    p = 0
    q = None

    def step(self):
        while True:
            yield self.delay(1)


class Net(Common, sagents.NetworkAgent):
    def step(self):
        return None


class Machine(Common, FSM):
    p = "m"

    @state(default=True)
    def idle(self):
        return None


class Full(Common, sagents.Agent):
    r = [1]

    @state(default=True)
    def idle(self):
        return None


class Env(Common, Environment):
    cattr = "shared"


CLASSES = [Plain, Gen, Net, Machine, Full]
DEFAULTS = {Plain: {"p": "d"}, Gen: {"p": 0, "q": None}, Net: {}, Machine: {"p": "m"}, Full: {"r": [1]}}


def val(v):
    return repr(v) if not callable(v) else "code"


def run(sc, log):
    rnd = random.Random(str(sc["seed"]))
    objs, live = {}, []
    base = {}
    log_n = [0]

    def pairs(d):
        return [[k, val(v)] for k, v in d.items()]

    envs = []
    for i in (101, 102):
        f = {n: rnd.choice(VALUES) for n in ("p2", "z", "q") if rnd.random() < 0.4}
        e = Env(topology=nx.path_graph(2), seed=str(sc["seed"]), **f)
        objs[i] = e
        envs.append(i)
        base[i] = len(list(e.keys())) - len(f)
        log("env", o=i, f=pairs(f), c=pairs({"prop": "of the class", "meth": e.meth, "cattr": "shared"}))

    def new():
        e = rnd.choice(envs)
        cls = rnd.choice(CLASSES)
        f = {n: rnd.choice(VALUES) for n in ("p", "q", "r", "_h") if rnd.random() < 0.3}
        a = objs[e].add_agent(cls, **f)
        o = len(objs)
        objs[o] = a
        live.append(o)
        # Default values are those of the environment, if it has them (C18)
        d = {k: (getattr(objs[e], k) if getattr(objs[e], k, None) is not None else v) for k, v in DEFAULTS[cls].items()}
        d.update(f)
        c = {"prop": "of the class", "meth": a.meth}
        base[o] = len(list(a.keys())) - len([k for k in d if k[0] != "_"])
        log("agent", o=o, e=e, f=pairs(d), c=pairs(c))
        for w in ("unique_id", "name", "alive"):
            if w not in list(a.keys()) or a[w] != getattr(a, w):
                log("identity-not-listed")

    def pick():
        ids = sorted(objs)
        return rnd.choice(ids)

    def value(f, *errors):
        try:
            return val(f())
        except errors:
            return "error"

    universe = ("p", "q", "r", "z", "_h", "prop", "meth", "p2", "cattr")

    def observe(o):
        x = objs[o]
        isenv = o in envs
        for n in rnd.sample(universe, 3):
            d = rnd.choice(["dflt", None, 0])
            w = rnd.choice(["attr", "item", "get", "get", "in", "hasattr"])
            given = rnd.random() < 0.7
            if w == "attr":
                r = value(lambda: getattr(x, n), AttributeError)
            elif w == "item":
                r = value(lambda: x[n], KeyError)
            elif w == "get":
                r = value(lambda: x.get(n, d) if given else x.get(n))
            elif w == "in":
                r = "yes" if n in x else "no"
            else:
                r = "yes" if hasattr(x, n) else "no"
            log("look", o=o, n=n, w=w, r=r, d=val(d if given else None))
        known = names(o)
        w = rnd.choice(["keys", "len", "dict", "keys"] if isenv else ["keys", "items", "only", "skip", "len", "dict", "values", "iter", "str", "star"])
        if w == "keys":
            log("names", o=o, ns=mine(o, x.keys()), only=[], skip=[])
        elif w == "iter":
            log("names", o=o, ns=mine(o, x), only=[], skip=[])
        elif w == "items":
            log("items", o=o, q=[[k, val(v)] for k, v in x.items() if k in known], only=[], skip=[])
        elif w == "dict" or w == "star":
            d = dict(x) if w == "dict" else {**x}
            log("items", o=o, q=[[k, val(v)] for k, v in d.items() if k in known], only=[], skip=[])
        elif w == "values":
            log("len", o=o, n=len(list(x.values())), b=base[o])
        elif w == "len":
            log("len", o=o, n=len(x), b=base[o])
        elif w == "only":
            only = rnd.sample(universe, rnd.randint(0, 3))
            skip = rnd.sample(universe, rnd.randint(0, 2))
            kw = {"skip": skip} if skip or rnd.random() < 0.3 else {}
            log("items", o=o, q=[[k, val(v)] for k, v in x.items(keys=only, **kw)], only=[only], skip=skip)
        elif w == "skip":
            skip = rnd.sample(universe, rnd.randint(0, 3))
            log("items", o=o, q=[[k, val(v)] for k, v in x.items(skip=skip) if k in known], only=[], skip=skip)
        elif w == "str":
            only = [rnd.sample(universe, rnd.randint(1, 3))] if rnd.random() < 0.5 else []
            skip = rnd.sample(universe, rnd.randint(0, 2)) if rnd.random() < 0.5 else []
            pretty = rnd.random() < 0.5
            s = x.to_str(keys=only[0] if only else None, skip=skip or None, pretty=pretty)
            ns = [n for n in universe if ("- %s: " % n if pretty else "%r: " % n) in s]
            log("names", o=o, ns=ns, only=only, skip=skip)
        if isenv:
            log("iter", o=o, q=[i for a in x for i in live if objs[i] is a])
            if len(list(iter(x))) != len([i for i in live if objs[i].model is x]):
                log("agents-that-are-not")

    def names(o):
        # The logger is an attribute of the environment, but not part of the state of an agent
        return set(universe) | set(() if o in envs else NAMES)

    def mine(o, ks):
        return [k for k in ks if k in names(o)]

    for _ in range(2):
        new()
    for (op, w, n) in sc["cmds"]:
        o = pick()
        x = objs[o]
        isenv = o in envs
        v = rnd.choice(VALUES)
        if op == "new":
            new()
        elif op == "die":
            if len(live) > 1:
                i = rnd.choice(live)
                objs[i].die()
                live.remove(i)
                log("die", o=i)
        elif op == "set":
            if n == "prop":
                n = "r"
            if isenv and w not in ("attr", "item"):
                w = "item"
            if w == "attr":
                setattr(x, n, v)
            elif w == "item":
                x[n] = v
            elif w == "update":
                x.update({n: v})
            elif w == "updatekw":
                x.update(**{n: v})
            if w == "setdefault":
                r = x.setdefault(n, v)
                log("setdefault", o=o, n=n, v=val(v), r=val(r))
            else:
                log("set", o=o, n=n, v=val(v))
        elif op == "del":
            if n == "prop":
                n = rnd.choice(["p", "r"])
            if isenv and w not in ("attr", "item"):
                w = "item"
            if w in ("pop", "popd") and n in x and n not in vars(x):
                # It cannot be deleted, because it belongs to the class
                w = "item"
            d = rnd.choice([None, "dflt"])
            if w == "attr":
                r = "ok" if value(lambda: delattr(x, n), AttributeError) != "error" else "error"
            elif w == "item":
                r = "ok" if value(lambda: x.__delitem__(n), AttributeError, KeyError) != "error" else "error"
            elif w == "pop":
                r = value(lambda: x.pop(n), KeyError)
            else:
                r = value(lambda: x.pop(n, d))
            log("del", o=o, n=n, w=w, r=r, d=val(d))
        for o in rnd.sample(sorted(objs), 3):
            observe(o)
    for o in sorted(objs):
        observe(o)


if __name__ == "__main__":
    common.main(run)
