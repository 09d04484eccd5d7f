"""The agents that count (Count.tla)."""
import random
import common

soil = common.soil_module()
import networkx as nx
from soil import Environment, BaseAgent
from soil import agents as sagents
from soil import time as stime

now = {}


class Logs:
    def step(self):
        super().step()
        now["log"]("act", a=self.unique_id, t=self.times, n=getattr(self, "neighbors", 0), s=getattr(self, "total", 0))


class Ticker(Logs, sagents.Ticker):
    pass


class Counter(Logs, sagents.CounterModel):
    pass


class Sum(Logs, sagents.AggregatedCounter):
    pass


class Other(sagents.NetworkAgent):
    def step(self):
        return None


class Alone(BaseAgent):
    def step(self):
        return None


class Killer(BaseAgent):
    """Kills another agent when it is activated"""

    def step(self):
        if now["kills"]:
            now["kills"] -= 1
            now["kill"](self)


KIND = {Ticker: "Ticker", Counter: "Counter", Sum: "Sum"}


def run(sc, log):
    rnd = random.Random(str(sc["seed"]))
    G = nx.Graph()
    G.add_nodes_from(range(sc["size"]))
    G.add_edges_from(map(tuple, sc["links"]))
    now.update(log=log, kills=0)
    kw = {}
    if sc["sched"] == "pq":
        kw["schedule_class"] = stime.PQueueActivation
    elif sc["sched"] == "ordered":
        kw["schedule_class"] = stime.OrderedTimedActivation
    env = Environment(topology=G, seed=str(sc["seed"]), **kw)
    agents = {}

    def born(cls):
        was = {frozenset(e) for e in env.G.edges}
        a = env.add_agent(cls)
        agents[a.unique_id] = a
        net = isinstance(a, sagents.NetworkAgent)
        log("born", a=a.unique_id, n=repr(a.node_id) if net else "", c=KIND.get(cls, ""))

    def die(a):
        agents.pop(a.unique_id)
        a.die()
        log("die", a=a.unique_id)

    def kill(by):
        rest = [a for a in agents.values() if a is not by]
        if rest:
            die(rnd.choice(rest))

    now["kill"] = kill
    for cls in rnd.choices([Counter, Sum, Ticker, Other, Alone, Killer], k=rnd.randint(1, 6)):
        born(cls)

    for c in sc["cmds"]:
        if c == "step":
            env.step()
        elif c == "die" and len(agents) > 1:
            die(rnd.choice([agents[k] for k in sorted(agents)]))
        elif c == "kill":
            now["kills"] += 1
            born(Killer)
        elif c in ("counter", "sum", "ticker", "other"):
            born({"counter": Counter, "sum": Sum, "ticker": Ticker, "other": rnd.choice([Other, Alone])}[c])
        elif c in ("link", "cut"):
            ns = list(env.G.nodes)
            if len(ns) > 1:
                u, v = rnd.sample(ns, 2)
                if c == "link":
                    env.G.add_edge(u, v)
                elif env.G.has_edge(u, v):
                    env.G.remove_edge(u, v)
                log(c, u=repr(u), v=repr(v))
        for a in [agents[k] for k in sorted(agents)]:
            if type(a) in KIND:
                log("show", a=a.unique_id, t=a.times, n=getattr(a, "neighbors", 0), s=getattr(a, "total", 0))


if __name__ == "__main__":
    common.main(run)
