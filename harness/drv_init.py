"""Hierarchies of agents, models and arguments (AgentInit.tla)."""
import random
from collections import deque
import common

soil = common.soil_module()
import networkx as nx
from soil import BaseAgent, Environment
from soil import agents as sa
from soil import environment as senv
from soil.agents.fsm import state as fsmstate

NAMES = ["p", "q", "r", "s", "extra"]


def enc(v):
    return "None" if v is None else "%s:%r" % (type(v).__name__, v)


BASES = {"base": BaseAgent, "net": sa.NetworkAgent, "evt": sa.EventedAgent, "fsm": sa.FSM, "agent": sa.Agent}


def run(sc, log):
    rnd = random.Random(sc["seed"])
    counter = [0]
    if sc["base"] in ("net", "agent"):
        sc = dict(sc, env="env")

    class Box:
        """Something else that can be changed"""

        def __init__(self, n):
            self.n = [n]

        def __repr__(self):
            return "Box(%r)" % self.n

    def fresh(kind=None):
        """A new value"""
        counter[0] += 1
        n = counter[0]
        kind = kind or rnd.choice(["int", "str", "list", "dict", "nested", "zero", "false", "empty", "emptylist", "tuple", "float", "set", "box", "deque"])
        return {"int": n, "str": "v%d" % n, "list": [n], "dict": {"k": n}, "nested": {"k": [n, {"j": [n]}]}, "zero": 0, "false": False, "empty": "",
                "emptylist": [], "tuple": (n, [n]), "float": n + 0.5, "set": {n}, "box": Box(n), "deque": deque([n])}[kind]

    env_attrs = {}
    # The classes
    chain, decls = [], []
    base = BASES[sc["base"]]
    for lvl in range(3):
        ns, dflt, dec = {}, {}, {}
        for nm, spec in sc["names"].items():
            how = spec["decl"][lvl]
            if how == "no":
                continue
            v = None if how == "none" else fresh()
            if how == "dict" or (how == "none" and rnd.random() < 0.4):
                dflt[nm] = v
            else:
                ns[nm] = v
            dec[nm] = enc(v)
        if dflt:
            ns["defaults"] = dflt
        if lvl == 0:
            if sc["base"] in ("fsm", "agent"):
                def idle(self):
                    pass
                ns["idle"] = fsmstate(idle, default=True) if False else fsmstate(default=True)(idle)
            else:
                def step(self):
                    return 1
                ns["step"] = step

            def init(self):
                log("create", a=self.unique_id, c=self._c, args=current["args"], st=see(self))
                current["made"].append(self)
            ns["init"] = init
        if lvl and sc["custom"] and "defaults" not in ns:
            ns["_c"] = lvl
            base = base.w(**ns) if rnd.random() < 0.5 else sa.custom(base, **ns)
        else:
            ns["_c"] = lvl
            base = type("L%d" % lvl, (base,), ns)
        chain.append(base)
        decls.append(dec)
    current = {"args": [], "made": []}

    def see(a):
        return [[n, enc(v)] for n, v in vars(a).items() if n in NAMES]

    log("classes", cs=[[[[n, v] for n, v in d.items()] for d in decls[:i + 1]] for i in range(3)])

    # The model
    kw, cls_ns = {}, {}
    for nm, spec in sc["names"].items():
        if spec["model"] == "none":
            kw[nm] = None
        elif spec["model"] == "yes":
            kw[nm] = fresh(rnd.choice(["int", "str", "float", "zero", "false", "empty"]))
        elif spec["model"] == "class":
            cls_ns[nm] = fresh(rnd.choice(["int", "str"]))
    Env = type("Env", ({"env": Environment, "bare": senv.BaseEnvironment}[sc["env"]],), cls_ns)
    if sc["env"] == "env":
        env = Env(topology=nx.path_graph(4), **kw)
    else:
        env = Env(**kw)
    for nm, v in list(cls_ns.items()) + list(kw.items()):
        log("model", n=nm, v=enc(v))

    def create(lvl):
        args = {}
        for nm, spec in sc["names"].items():
            how = spec["arg"] if lvl == 2 or rnd.random() < 0.5 else "no"
            if how == "none":
                args[nm] = None
            elif how == "yes":
                args[nm] = fresh()
        if rnd.random() < 0.4:
            args["extra"] = fresh()
        current["args"] = [[n, enc(v)] for n, v in args.items()]
        cls = chain[lvl]
        before, direct = {id(a) for a in env.get_agents()}, []
        how = rnd.choice(["add", "add", "many", "direct"] + (["populate", "node"] if sc["env"] == "env" else []))
        if how == "add":
            env.add_agent(cls, **args)
        elif how == "many":
            # The same arguments for several agents (each of them gets the very same value)
            env.add_agents(cls, k=2, **args)
        elif how == "populate":
            env.populate_network(cls, **args) if any("agent" not in d for _, d in env.G.nodes(data=True)) else env.add_agent(cls, **args)
        elif how == "node":
            env.add_node(cls, **args)
        else:
            counter[0] += 1
            direct.append(cls(unique_id=1000 + counter[0], model=env, **args))
        log("born", ids=[a.unique_id for a in list(env.get_agents()) + direct if id(a) not in before])
        shared.update(id(v) for v in args.values())

    shared = set()

    def mutable(a):
        # Values that were given by the caller or the model may be shared
        return [n for n in NAMES if n in vars(a) and isinstance(getattr(a, n), (list, dict, tuple, set, Box, deque)) and id(getattr(a, n)) not in shared]

    def look():
        for a in current["made"]:
            log("see", a=a.unique_id, st=see(a))

    for op in sc["ops"]:
        made = current["made"]
        if op == "create" or not made:
            create(rnd.choice([2, 2, 1, 0]))
            continue
        a = rnd.choice(made)
        have = [n for n in NAMES if n in vars(a)]
        if op == "inplace":
            ns = mutable(a)
            if not ns:
                continue
            n = rnd.choice(ns)
            v = getattr(a, n)
            counter[0] += 1
            if isinstance(v, tuple):
                v[1].append(counter[0])
            elif isinstance(v, set):
                v.add(counter[0])
            elif isinstance(v, Box):
                v.n.append(counter[0])
            elif isinstance(v, (list, deque)):
                v.append(counter[0])
            elif "k" in v and isinstance(v["k"], list) and rnd.random() < 0.7:
                v["k"][1]["j"].append(counter[0]) if rnd.random() < 0.5 else v["k"].append(counter[0])
            else:
                v["new%d" % counter[0]] = 1
            log("write", a=a.unique_id, n=n, v=enc(v))
        elif op == "set":
            n, v = rnd.choice(NAMES), fresh()
            if rnd.random() < 0.5:
                setattr(a, n, v)
            else:
                a[n] = v
            log("write", a=a.unique_id, n=n, v=enc(v))
        elif op == "del" and have:
            n = rnd.choice(have)
            if rnd.random() < 0.5:
                delattr(a, n)
            else:
                del a[n]
            log("erase", a=a.unique_id, n=n)
        elif op == "read" and have:
            n = rnd.choice(have)
            log("read", a=a.unique_id, n=n, v=enc(a[n]))
            log("read", a=a.unique_id, n=n, v=enc(getattr(a, n)))
            log("read", a=a.unique_id, n=n, v=enc(a.get(n)))
            log("read", a=a.unique_id, n=n, v=enc(dict(a.items())[n]))
        elif op == "has":
            for n in NAMES:
                log("has", a=a.unique_id, n=n, yes=n in a)
                log("has", a=a.unique_id, n=n, yes=n in list(a.keys()))
                try:
                    a[n]
                    log("has", a=a.unique_id, n=n, yes=True)
                except KeyError:
                    log("has", a=a.unique_id, n=n, yes=False)
        elif op == "setmodel":
            n = rnd.choice(list(sc["names"]))
            v = rnd.choice([None, "later", 5])
            setattr(env, n, v)
            log("model", n=n, v=enc(v))
        look()
    # New agents are not affected by what happened to the others
    for lvl in (0, 1, 2):
        create(lvl)
    look()


if __name__ == "__main__":
    common.main(run)
