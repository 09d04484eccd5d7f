"""Creation of agents, deaths and changes to the network (Net.tla)."""
import random
import common
from common import T, U, NONE

soil = common.soil_module()
import networkx as nx
from soil import Environment, BaseAgent
from soil import agents as sagents
from soil.agents import NetworkAgent
from soil.agents.fsm import state
from soil import time as stime
from mesa import Agent as MesaAgent


class Net(NetworkAgent):
    p = "unset"

    def step(self):
        return None


class Net2(Net):
    q = "unset"


class Full(sagents.Agent):
    p = "unset"

    @state(default=True)
    def idle(self):
        return None


class Plain(BaseAgent):
    p = "unset"

    def step(self):
        return None


class Bare(MesaAgent):
    """A plain mesa agent"""

    def __init__(self, unique_id, model, p="unset", **kwargs):
        super().__init__(unique_id, model)
        self.p = p
        for k, x in kwargs.items():
            setattr(self, k, x)

    def step(self):
        return None


class Parent(Net):
    """Creates another agent, in one of the possible ways, while it is being created"""

    def init(self):
        m = self.model
        m.ctx["within"].append(all(x is not None and m.agent_for_node_id(x.node_id) is x for x in m.network_agents))
        before = {a.unique_id for a in m.schedule.agents}
        how = m.ctx["how"]
        if how == 0:
            m.add_agent(Net)
        elif how == 1:
            m.add_node(Net)
        elif how == 2:
            m.add_agents([Net], k=1)
        elif how == 3:
            m.add_agents(Net, k=1, weights=[2])
        else:
            # Nodes that are being populated are not free
            m.populate_network(Net)
        m.ctx["kids"] += [a.unique_id for a in m.schedule.agents if a.unique_id not in before]


class Runner(BaseAgent):
    """Runs commands in its steps"""

    def step(self):
        self.model.ctx["do"]()


CLASSES = {c.__name__: c for c in (Net, Net2, Full, Plain, Bare, Parent)}


def nid(n):
    return repr(n)


def run(sc, log):
    rnd = random.Random(str(sc["seed"]))
    G = nx.Graph()
    G.add_nodes_from(sc["nodes"])
    G.add_edges_from(map(tuple, sc["edges"]))
    if sc["attrs"]:
        for n in G.nodes:
            G.nodes[n]["color"] = "c%s" % n
    kw = {}
    if sc["nodes"]:
        kw["topology"] = G if sc["how"] % 2 else nx.node_link_data(G)
    if sc["how"] % 3 == 0 and sc["nodes"]:
        kw["agent_class"] = Net
    if sc["sched"] == "pq":
        kw["schedule_class"] = stime.PQueueActivation

    class Env(Environment):
        def init(self):
            self.ctx = {"kids": [], "do": None, "how": 0, "within": []}

    pre = sc["pre"]
    if pre is not None:
        # Agents given to the constructor
        pre = dict(pre, agent_classes=[CLASSES[c] for c in pre["agent_classes"]])
        if pre["k"] is None and sc["nodes"]:
            pre.pop("k")
        kw["agents"] = pre
    named = {}
    if pre is not None and sc["nodes"] and "agent_class" not in kw and sc["how"] % 2 and not any(issubclass(c, NetworkAgent) for c in pre["agent_classes"]):
        # Nodes may name the agent that is in them
        n = pre.get("k", len(sc["nodes"]))
        for i, x in zip(rnd.sample(range(n), rnd.randint(0, n)), rnd.sample(sc["nodes"], len(sc["nodes"]))):
            G.nodes[x]["agent_id"] = i
            named[i] = x
    env = Env(seed=str(sc["id"]), **kw)
    known = {}

    def describe(a, kids):
        par = [[k, repr(getattr(a, k))] for k in ("p", "q", "r") if hasattr(a, k)]
        # Any agent can be given a node, but the others do not need one
        node = getattr(a, "node_id", None)
        isnet = isinstance(a, NetworkAgent) or node is not None
        return {"a": a.unique_id, "cls": type(a).__name__, "net": isnet, "n": nid(node) if isnet and node is not None else "",
                "par": par, "kid": a.unique_id in kids}

    def fresh(ids=None):
        new = [a for a in env.schedule.agents if id(a) not in known and not isinstance(a, Runner)]
        if ids is not None:
            new = [a for a in new if a.unique_id in ids]
        for a in new:
            known[id(a)] = a
        return new

    def everybody():
        return [a for a in env.schedule.agents if not isinstance(a, Runner)]

    def snap():
        log("snap", nodes=[nid(n) for n in env.G.nodes], edges=[[nid(u), nid(v)] for u, v in env.G.edges],
            ref=[[nid(n), env.agent_for_node_id(n).unique_id] for n in env.G.nodes if env.agent_for_node_id(n) is not None],
            at=[[a.unique_id, nid(a.node_id)] for a in everybody() if isinstance(a, NetworkAgent) or hasattr(a, "node_id")],
            live=[[a.unique_id, type(a).__name__] for a in everybody()], n=len(everybody()),
            net=[a.unique_id for a in env.network_agents])

    def made(kind, r, mk, ids=None):
        env.ctx["kids"] = []
        env.ctx["within"] = []
        env.ctx["how"] = rnd.randrange(5)
        r["fill"] = env.ctx["how"] == 4
        mk()
        new = fresh(ids)
        kids = env.ctx["kids"]
        ds = [describe(a, kids) for a in new]
        ds.sort(key=lambda d: (d["kid"], d["a"]))
        log(kind, r=r, made=ds)
        if env.ctx["within"]:
            log("within", ok=all(env.ctx["within"]))
        for i in ds:
            ever.add(i["a"])

    ever = set()

    def req(**kw):
        r = dict(k=1, all=False, node="", uid=NONE, classes=[], par=[], fill=False)
        r.update(kw)
        return r

    def pick(lst):
        return rnd.choice(lst) if lst else None

    def free():
        return [n for n in env.G.nodes if "agent" not in env.G.nodes[n]]

    def params(names=("p", "r")):
        p = {k: rnd.choice([1, "x", (2, 3), False, None]) for k in names if rnd.random() < 0.6}
        return p, [[k, repr(v)] for k, v in p.items()]

    def netcls():
        return rnd.choice([Net, Net2, Full, Net, Net2, Full, Plain, Bare])

    def mixed():
        cs = rnd.sample([Net, Net2, Full, Plain, Bare], rnd.randint(1, 3))
        w = None
        ok = [c.__name__ for c in cs]
        if rnd.random() < 0.6:
            w = [rnd.choice([0, 1, 2.5, 0.001]) for _ in cs]
            if not any(w):
                w[0] = 1
            ok = [c.__name__ for c, x in zip(cs, w) if x > 0]
        return cs, w, ok

    count = [0]

    def command(c):
        count[0] += 1
        p, pl = params()
        if c == "add":
            cls = rnd.choice([Net, Net2, Full])
            made("add", req(classes=[cls.__name__], par=pl), lambda: env.add_agent(cls, **p))
        elif c == "plain":
            cls = rnd.choice([Plain, Bare])
            made("add", req(classes=[cls.__name__], par=pl), lambda: env.add_agent(cls, **p))
        elif c == "addat":
            n = pick(free())
            if n is None:
                return
            cls = netcls()
            made("add", req(classes=[cls.__name__], node=nid(n), par=pl), lambda: env.add_agent(cls, node_id=n, **p))
        elif c == "addid":
            top = max(ever, default=0)
            uid = rnd.choice([i for i in range(top + 4) if i not in ever and i != 100000])
            cls = rnd.choice([Net, Plain, Bare])
            made("add", req(classes=[cls.__name__], uid=uid, par=pl), lambda: env.add_agent(cls, unique_id=uid, **p))
        elif c == "addnode":
            cls = netcls()
            made("add", req(classes=[cls.__name__], par=pl), lambda: env.add_node(cls, **p))
        elif c == "addnew":
            cls = netcls()
            n = pick(["new%d" % count[0], 1000 + count[0]] + free())
            made("add", req(classes=[cls.__name__], node=nid(n), par=pl), lambda: env.add_node(cls, node_id=n, **p))
        elif c == "many":
            cs, w, ok = mixed()
            k = rnd.choice(sc["ks"])
            made("add", req(k=k, classes=ok, par=pl), lambda: env.add_agents(rnd.choice([cs, tuple(cs)]) if len(cs) > 1 or rnd.random() < 0.5 else cs[0], k=k, weights=w, **p))
        elif c == "all":
            cs, w, ok = mixed()

            def mk():
                env.add_agents(cs, weights=w, **p)
            if len(env.G):
                made("add", req(k=0, all=True, classes=ok, par=pl), mk)
            else:
                try:
                    mk()
                except ValueError:
                    log("refused", what="all")
                else:
                    log("agents-for-an-empty-network")
        elif c == "populate":
            if not free():
                return
            cs, w, ok = mixed()
            w = [rnd.choice([0, 0, 1, 2, 0.5, 0.001]) for _ in cs] if w else None
            if w and not any(w):
                w[-1] = 1
            if rnd.random() < 0.4:
                cs, w = [Parent], None
            made("populate", req(k=0, classes=[x.__name__ for i, x in enumerate(cs) if not w or w[i]], par=pl),
                 lambda: env.populate_network(rnd.choice([cs, cs, tuple(cs), iter(cs), dict.fromkeys(cs).keys() if len(set(cs)) == len(cs) else cs]) if len(cs) > 1 or rnd.random() < 0.5 else cs[0], weights=w, **p))
        elif c == "parent":
            n = rnd.choice([1, 1, 2])
            made("add", req(k=n, classes=["Parent"], par=pl),
                 rnd.choice([lambda: env.add_agents(Parent, k=n, **p), lambda: [env.add_agent(Parent, **p) for _ in range(n)],
                             lambda: [env.add_node(Parent, **p) for _ in range(n)]]))
        elif c in ("die", "leave"):
            a = pick(everybody())
            if a is None:
                return
            if rnd.random() < (0.7 if len(env.G) > 30 else 0.2) and len(env.G):
                # The one with the most links
                hub = max(env.G.nodes, key=lambda n: env.G.degree(n))
                hub = env.agent_for_node_id(hub)
                a = hub if hub in everybody() else a
            if isinstance(a, Bare):
                # (its node, if it has one, would not know)
                if not hasattr(a, "node_id"):
                    env.schedule.remove(a)
                    log("die", a=a.unique_id, rm=False)
                return
            # Only network agents take their node with them
            rm = c == "die" and isinstance(a, NetworkAgent)
            if isinstance(a, NetworkAgent) and not rm:
                if isinstance(a, Full):
                    return
                a.die(remove=False)
            else:
                a.die()
            log("die", a=a.unique_id, rm=rm)
            if isinstance(a, NetworkAgent) and rm:
                log("lost", a=a.unique_id, n="" if a.node_id is None else nid(a.node_id))
        elif c == "unode":
            n = pick(["u%d" % count[0], 2000 + count[0], len(env.G), len(env.G) + 1])
            env.G.add_node(n)
            log("unode", n=nid(n))
        elif c == "udrop":
            n = pick(free())
            if n is None:
                return
            env.G.remove_node(n)
            log("udrop", n=nid(n))
        elif c == "uedge":
            if len(env.G) < 2:
                return
            u, v = rnd.sample(list(env.G.nodes), 2)
            env.G.add_edge(u, v)
            log("uedge", u=nid(u), v=nid(v))
        elif c == "ucut":
            e = pick(list(env.G.edges))
            if e is None:
                return
            env.G.remove_edge(*e)
            log("ucut", u=nid(e[0]), v=nid(e[1]))
        elif c == "link":
            net = [a for a in everybody() if isinstance(a, NetworkAgent)]
            if len(net) < 2:
                return
            a, b = rnd.sample(net, 2)
            a.add_edge(b)
            log("link", a=a.unique_id, b=b.unique_id)
        elif c == "step" and not sc["inside"]:
            env.step()
        snap()

    if pre:
        w = pre.get("weights") or [1] * len(pre["agent_classes"])
        n = pre.get("k", len(sc["nodes"]))
        made("add", req(k=n, all="k" not in pre, classes=[c.__name__ for c, x in zip(pre["agent_classes"], w) if x > 0], par=[["p", repr(pre["p"])]] if "p" in pre else []),
             lambda: None, range(n) if "agent_class" in kw else None)
        if "agent_class" not in kw:
            log("named", want=[[i, nid(x)] for i, x in named.items()])
            snap()
    if "agent_class" in kw:
        made("populate", req(k=0, classes=["Net"]), lambda: None)
        snap()
    todo = list(sc["cmds"])
    if sc["inside"]:
        def do():
            for _ in range(rnd.randint(1, 3)):
                if todo:
                    command(todo.pop(0))
        env.ctx["do"] = do
        env.schedule.add(Runner(unique_id=100000, model=env))
        for _ in range(60):
            if not todo:
                break
            env.step()
            snap()
    else:
        for c in todo:
            command(c)
        env.step()
        snap()


if __name__ == "__main__":
    common.main(run)
