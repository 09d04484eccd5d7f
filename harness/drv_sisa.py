"""Networks of SISa agents (Sisa.tla)."""
import random
import common

soil = common.soil_module()
import networkx as nx
from soil import Environment
from soil.agents import SISaModel

current = {}


class Agent(SISaModel):
    def step(self):
        before = self.state_id
        res = super().step()
        current["log"]("move", a=self.unique_id, s=before, t=self.state_id)
        return res


class Env(Environment):
    def init(self):
        pass


def run(sc, log):
    current.clear()
    current.update(log=log)
    rnd = random.Random(sc["seed"])
    q = sc["cfg"]["q"]
    params = {k: v / 4 for k, v in q.items() if not k.startswith("v_")}
    params.update(standard_variance=q["v_std"] * 1.0, variance_d_c=q["v_dc"] * 1.0, variance_c_d=q["v_cd"] * 1.0)
    G = nx.Graph()
    n = sc["n"]
    names = list(range(n))
    if sc["names"]:
        names = ["x%d" % i for i in names]
    G.add_nodes_from(names)
    G.add_edges_from((names[i], names[j]) for i in range(n) for j in range(i + 1, n) if rnd.random() < sc["density"])
    env = Env(topology=G, seed=str(sc["seed"]), **params)
    agents = []
    for node in names:
        kw = {}
        s = rnd.choice(["neutral", "discontent", "content"])
        if s != "neutral" or rnd.random() < 0.5:
            kw["state_id"] = s
        a = env.add_agent(Agent, node_id=node, **kw)
        agents.append(a)
        log("join", a=a.unique_id, s=s)
    where = {a.node_id: a for a in agents}
    for (u, v) in env.G.edges:
        log("connect", a=where[u].unique_id, b=where[v].unique_id)
    for _ in range(sc["steps"]):
        for _ in range(rnd.choice([0, 0, 1, 2])):
            alive = [a for a in agents if a.alive]
            if len(alive) < 2:
                break
            a, b = rnd.sample(alive, 2)
            op = rnd.choice(["connect", "cut", "force", "force", "die", "join"])
            if op == "connect":
                if rnd.random() < 0.5:
                    env.G.add_edge(a.node_id, b.node_id)
                else:
                    a.add_edge(b)
                log("connect", a=a.unique_id, b=b.unique_id)
            elif op == "cut":
                if env.G.has_edge(a.node_id, b.node_id):
                    env.G.remove_edge(a.node_id, b.node_id)
                log("cut", a=a.unique_id, b=b.unique_id)
            elif op == "force" and env.now == 0:
                s = rnd.choice(["neutral", "discontent", "content"])
                a.set_state(s)
                log("force", a=a.unique_id, s=s)
            elif op == "die" and rnd.random() < 0.3:
                a.die()
                log("leave", a=a.unique_id)
            elif op == "join" and rnd.random() < 0.3:
                c = env.add_agent(Agent)
                agents.append(c)
                log("join", a=c.unique_id, s="neutral")
                c.add_edge(a)
                log("connect", a=c.unique_id, b=a.unique_id)
        env.step()
        for a in agents:
            if a.alive:
                log("see", a=a.unique_id, s=a.state_id)


if __name__ == "__main__":
    common.main(run)
