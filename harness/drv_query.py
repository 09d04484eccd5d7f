"""Queries of agents with every kind of filter (Query.tla)."""
import copy
import random
import common

soil = common.soil_module()
import networkx as nx
from soil import Environment, BaseAgent
from soil import agents as sagents
from soil.agents import NetworkAgent, FSM
from soil.agents.fsm import state
from soil import time as stime
from mesa import Agent as MesaAgent


class Plain(BaseAgent):
    def step(self):
        return None


class Plain2(Plain):
    pass


class Prop(Plain):
    """One of its attributes is a property"""

    @property
    def size(self):
        return self._size

    @size.setter
    def size(self, x):
        self._size = x


class Net(NetworkAgent):
    def step(self):
        return None


class Net2(Net):
    pass


class Mach(FSM):
    goto = "a"

    @state(default=True)
    def a(self):
        return self.goto

    @state
    def b(self):
        return self.goto

    @state
    def ab(self):
        return self.goto


class NetMach(sagents.Agent):
    goto = "a"

    @state(default=True)
    def a(self):
        return self.goto

    @state
    def b(self):
        return self.goto

    @state
    def ab(self):
        return self.goto


class Bare(MesaAgent):
    """A plain mesa agent"""

    def __init__(self, unique_id, model, **kwargs):
        super().__init__(unique_id, model)
        for k, x in kwargs.items():
            setattr(self, k, x)

    def step(self):
        return None


CLASSES = [Plain, Plain2, Prop, Net, Net2, Mach, NetMach, Bare]
NAMES = ["BaseAgent", "NetworkAgent", "FSM", "EventedAgent"]
ATTRS = ["color", "size", "name2"]
VALUES = [1, 2, 3, "1", "red", 2.5, "", (1, 2), ("red", "1"), (), 1.0, True, 0, False, frozenset([1, 2]), {1, "red"}]
GRAPHS = {"graph": nx.Graph, "digraph": nx.DiGraph, "multi": nx.MultiGraph, "multidi": nx.MultiDiGraph}


def run(sc, log):
    rnd = random.Random(sc["seed"])
    kw = {}
    if sc["sched"] == "pq":
        kw["schedule_class"] = stime.PQueueActivation
    env = Environment(seed=str(sc["seed"]), topology=nx.empty_graph(3, create_using=GRAPHS[sc["graph"]]), **kw)
    shared = {}
    known = {}
    # Attributes of the environment are not those of its agents
    for k in rnd.sample(ATTRS, rnd.randint(0, 3)):
        setattr(env, k, rnd.choice(VALUES))
    if rnd.random() < 0.4:
        env.state_id = rnd.choice(["a", "b", "zz"])

    def isa(cls):
        return [c.__name__ for c in cls.__mro__ if c is not object]

    def v(x):
        # Equal values are the same
        if isinstance(x, (set, frozenset)):
            return "set" + repr(sorted(map(repr, x)))
        return "n%r" % float(x) if isinstance(x, (bool, int, float)) else repr(x)

    def live():
        return list(env.schedule.agents)

    def join():
        cls = rnd.choice(CLASSES)
        at = {k: rnd.choice(VALUES) for k in ATTRS if rnd.random() < 0.6}
        k = dict(at)
        st = ""
        if issubclass(cls, FSM):
            st = rnd.choice(["a", "b", "ab"])
            k["state_id"] = st
            k["goto"] = st
        if rnd.random() < 0.2:
            used = [a.unique_id for a in env.schedule.agents] + list(known)
            # (those in between do not come in order)
            k["unique_id"] = max(used, default=0) + rnd.randint(20, 30) if rnd.random() < 0.5 else rnd.choice([i for i in range(60) if i not in used])
        a = env.add_agent(cls, **k)
        log("join", a=a.unique_id, rec={"isa": isa(cls), "st": st, "at": {"_": "", **{x: v(y) for x, y in at.items()}},
                                       "n": repr(a.node_id) if isinstance(a, NetworkAgent) else ""})

    def leave():
        a = rnd.choice(live())
        w = not isinstance(a, NetworkAgent) or isinstance(a, FSM) or rnd.random() < 0.6
        log("leave", a=a.unique_id, w=w and isinstance(a, NetworkAgent))
        if isinstance(a, Bare):
            env.schedule.remove(a)
        elif w:
            a.die()
        else:
            a.die(remove=False)

    def attr():
        a = rnd.choice(live())
        n, x = rnd.choice(ATTRS), rnd.choice(VALUES)
        setattr(a, n, x)
        log("attr", a=a.unique_id, n=n, v=v(x))

    def step():
        new = {}
        for a in live():
            if isinstance(a, FSM):
                a.goto = rnd.choice(["a", "b", "ab"])
                new[a.unique_id] = a.goto
        env.step()
        for i, s in new.items():
            log("state", a=i, s=s)

    def link():
        if len(env.G) < 2:
            return
        u, w = rnd.sample(list(env.G.nodes), 2)
        if rnd.random() < 0.1:
            w = u
        if env.G.has_edge(u, w) and rnd.random() < 0.5 and "multi" not in sc["graph"]:
            env.G.remove_edge(u, w)
            log("cut", u=repr(u), v=repr(w))
            others = [(x, y) for x in env.G.nodes for y in env.G.nodes if x != y and not env.G.has_edge(x, y) and (x, y) != (u, w)]
            if others and rnd.random() < 0.5:
                # As many as before
                x, y = rnd.choice(others)
                env.G.add_edge(x, y)
                log("link", u=repr(x), v=repr(y))
        else:
            env.G.add_edge(u, w)
            log("link", u=repr(u), v=repr(w))

    def query(q):
        pop = live()
        ids = [a.unique_id for a in pop]
        form = q["form"]
        nets = [a for a in pop if isinstance(a, NetworkAgent)]
        if form in ("nb", "nbiter", "ncount"):
            if not nets:
                return
            me = rnd.choice(nets)
        elif form in ("agent", "iter", "acount"):
            who = [a for a in pop if isinstance(a, BaseAgent)]
            if not who:
                return
            me = rnd.choice(who)
        f = {"ids": [], "sts": [], "cls": [], "ats": [], "lim": [], "nb": []}
        args, kw = [], {}
        # The values are often those of an agent, so that something is found
        like = rnd.choice(pop) if pop and rnd.random() < 0.7 else None
        if like is not None and form in ("nb", "nbiter", "ncount") and rnd.random() < 0.8:
            near = [env.agent_for_node_id(n) for n in env.G.neighbors(me.node_id)]
            near = [a for a in near if a is not None and a.alive]
            like = rnd.choice(near) if near else like

        def bias(values, mine):
            """values, with mine among them"""
            values = list(values)
            if like is not None and mine is not None and mine not in values and values:
                values[rnd.randrange(len(values))] = mine
            return values
        if q["ids"]:
            n = 1 if q["ids"] == 1 else rnd.choice([0, 2, 3])
            chosen = bias([rnd.choice(ids + [777]) for _ in range(n)], None if like is None else like.unique_id)
            f["ids"] = [chosen]
            if n == 1 and rnd.random() < 0.7:
                if form in ("nb", "nbiter", "ncount") or rnd.random() < 0.5:
                    kw["unique_id"] = chosen[0]
                else:
                    args = [chosen[0]]
            elif form in ("env", "filter", "count", "one") and chosen and rnd.random() < 0.3:
                args = list(chosen)
            else:
                kw["unique_id"] = list(chosen)
        if q["sts"]:
            n = 1 if q["sts"] == 1 else 2
            chosen = bias(rnd.sample(["a", "b", "ab", "zz"], n), like.state_id if isinstance(like, FSM) else None)
            f["sts"] = [chosen]
            kw["state_id"] = chosen[0] if n == 1 and rnd.random() < 0.7 else (list(chosen) if rnd.random() < 0.5 else tuple(chosen))
        if q["cls"]:
            if q["cls"] == 3:
                c = rnd.choice(NAMES)
                f["cls"] = [[c]]
                kw["agent_class"] = "soil.agents." + c if rnd.random() < 0.5 else c
            else:
                cs = bias(rnd.sample(CLASSES + [BaseAgent, NetworkAgent, FSM], q["cls"]), None if like is None else type(like))
                f["cls"] = [[c.__name__ for c in cs]]
                kw["agent_class"] = cs[0] if q["cls"] == 1 and rnd.random() < 0.7 else (list(cs) if rnd.random() < 0.5 else tuple(cs))
        if q["ats"]:
            names = rnd.sample(ATTRS, 1 if q["ats"] < 3 else 2)
            for i, n in enumerate(names):
                k = 1 if q["ats"] == 1 or (q["ats"] == 3 and i) else rnd.choice([1, 2, 3])
                vals = bias(rnd.sample(VALUES, k), getattr(like, n, None))
                f["ats"].append([n, [v(x) for x in vals]])
                val = vals[0] if k == 1 and rnd.random() < 0.8 else list(vals)
                if q["ats"] == 3 and i == 0 or rnd.random() < 0.3:
                    kw.setdefault("state", {})[n] = val
                else:
                    kw[n] = val
        if q["lim"]:
            x = rnd.choice([0, 1]) if q["lim"] == 1 else rnd.choice([2, 3, 50])
            f["lim"] = [x]
            kw["limit"] = x
        if form in ("nb", "nbiter", "ncount"):
            f["nb"] = [me.unique_id]
        before = copy.copy(kw)
        deep = {k: copy.deepcopy(x) for k, x in kw.items() if k != "agent_class"}

        def uids(it):
            return [a.unique_id for a in it]
        if form == "env":
            log("res", f=f, res=uids(env.get_agents(*args, **kw)))
        elif form == "filter":
            log("res", f=f, res=uids(env.get_agents.filter(*args, **kw)))
        elif form == "count":
            log("count", f=f, n=int(env.count_agents(*args, **kw)))
        elif form == "one":
            if rnd.random() < 0.5:
                call = lambda: env.agent(*args, **kw)
            else:
                call = lambda: env.get_agents.one(*args, **kw)
            try:
                res = [call().unique_id]
            except (StopIteration, ValueError, KeyError, IndexError):
                res = []
            log("one", f=f, res=res)
        elif form == "agent":
            log("res", f=f, res=uids(me.get_agents(*args, **kw)))
        elif form == "iter":
            log("res", f=f, res=uids(me.iter_agents(*args, **kw)))
        elif form == "acount":
            if args:
                kw["unique_id"] = args[0]
                before = copy.copy(kw)
            log("count", f=f, n=int(me.count_agents(**kw)))
        elif form == "nb":
            log("res", f=f, res=uids(me.get_neighbors(**kw)))
        elif form == "nbiter":
            log("res", f=f, res=uids(me.iter_neighbors(**kw)))
        elif form == "ncount":
            log("count", f=f, n=int(me.count_neighbors(**kw)))
        same = set(kw) == set(before) and all(kw[k] == x for k, x in deep.items())
        log("same", args=bool(same), p=[[a.unique_id, a.state_id if isinstance(a, FSM) else ""] for a in live()])

    NO = {"ids": [], "sts": [], "cls": [], "ats": [], "lim": [], "nb": []}

    def views():
        view = env.get_agents
        log("count", f=NO, n=len(view))
        log("res", f=NO, res=[a.unique_id for a in view])
        log("res", f=NO, res=[a.unique_id for a in env])
        log("res", f=NO, res=list(view.keys()))
        log("res", f=NO, res=[a.unique_id for a in view.values()])
        log("res", f=NO, res=[i for (i, a) in view.items() if a.unique_id == i])
        for a in [a for a in live() if isinstance(a, NetworkAgent)][:3]:
            log("res", f=dict(NO, nb=[a.unique_id]), res=[b.unique_id for b in a.get_neighbors()])
        for i in rnd.sample([a.unique_id for a in known.values()], min(4, len(known))) + [777]:
            log("member", a=i, yes=bool(i in view))
            try:
                got = view[i]
                ok = got.unique_id == i
            except (ValueError, KeyError, IndexError):
                ok = False
            log("member", a=i, yes=bool(ok))

    for _ in range(sc["n"]):
        join()
    for _ in range(sc["links"]):
        link()
    for q in sc["queries"]:
        for a in live():
            known[a.unique_id] = a
        r = rnd.random()
        if r < 0.08:
            join()
        elif r < 0.16 and len(live()) > 2:
            leave()
        elif r < 0.24:
            attr()
        elif r < 0.3:
            step()
        elif r < 0.4:
            link()
        elif r < 0.45:
            views()
        query(q)


if __name__ == "__main__":
    common.main(run)
