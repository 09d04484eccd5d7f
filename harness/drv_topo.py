"""Networks: descriptions, generators, subgraphs and spatial search (Topo.tla)."""
import os
import random
import sys
import common

soil = common.soil_module()
import networkx as nx
from soil import Environment, BaseAgent
from soil.agents import NetworkAgent
from soil.agents.geo import Geo
from mesa import Agent as MesaAgent


class X(Geo):
    v = 0

    def step(self):
        return None


class Y(X):
    pass


class Z(NetworkAgent):
    v = 0

    def step(self):
        return None


class W(BaseAgent):
    v = 0

    def step(self):
        return None


class Bare(MesaAgent):
    """A plain mesa agent"""
    v = 0

    def step(self):
        return None


ISA = {X: ["X"], Y: ["X", "Y"], Z: ["Z"]}
CLS = {"X": X, "Y": Y, "Z": Z}
FILES = ("gexf", "graphml", "edgelist", "adjlist", "gml", "multiline_adjlist")
NODE_ATTRS, EDGE_ATTRS = ("w", "color"), ("e", "kind")
calls = []


def noted(params, seed):
    calls.append((dict(params), seed is not None))


def gen_plain(n, extra=0):
    noted(dict(n=n, extra=extra), None)
    G = nx.path_graph(n)
    G.add_nodes_from(range(n, n + extra))
    return G


def gen_seeded(n, extra=0, seed=None):
    noted(dict(n=n, extra=extra), seed)
    G = nx.Graph()
    G.add_nodes_from(range(n + extra))
    rnd = seed or random
    for u in range(n):
        for v in range(u):
            if rnd.random() < 0.5:
                G.add_edge(u, v)
    return G


MODULE = '''
from __main__ import gen_plain as plain, gen_seeded as seeded
'''


def node(n):
    return repr(n)


def attrs(d, names):
    return [[k, repr(d[k])] for k in names if k in d]


def view(G, alln=None, alle=None):
    """Nodes and links with their attributes; all but some of them, if it has to be strict"""
    ns = [[node(n), attrs(d, NODE_ATTRS if alln is None else sorted(set(d) - alln))] for n, d in G.nodes(data=True)]
    ls = [[e, attrs(d, EDGE_ATTRS if alle is None else sorted(set(d) - alle))] for e, d in edges(G)]
    return dict(d=G.is_directed(), m=G.is_multigraph(), ns=ns, ls=ls)


def edges(G):
    if G.is_multigraph():
        return [([node(u), node(v), k], d) for u, v, k, d in G.edges(keys=True, data=True)]
    return [([node(u), node(v), 0], d) for u, v, d in G.edges(data=True)]


def described(rnd, kind, size, density):
    """A random graph that can be described with that format"""
    plain = kind in ("edgelist", "adjlist", "multiline_adjlist")
    directed = not plain and rnd.random() < 0.35
    multi = kind in ("graph", "dict") and rnd.random() < 0.3
    loops = rnd.random() < 0.3
    G = {(0, 0): nx.Graph, (1, 0): nx.DiGraph, (0, 1): nx.MultiGraph, (1, 1): nx.MultiDiGraph}[directed, multi]()
    strings = kind in ("graphml", "edgelist", "adjlist", "gml", "multiline_adjlist")
    if kind == "gexf":
        names = rnd.sample(range(100), size)
    elif strings:
        names = ["n%d" % i for i in rnd.sample(range(100), size)]
    else:
        names = rnd.choice([rnd.sample(range(100), size), ["n%d" % i for i in range(size)], ([0, "1", 2.5, "b", 7, "x", 9, 10, "z"] + list(range(100, 200)))[:size]])
    for n in names:
        d = {}
        if kind not in ("edgelist", "adjlist", "multiline_adjlist"):
            if rnd.random() < 0.6:
                d["w"] = rnd.randint(0, 5)
            if rnd.random() < 0.4:
                d["color"] = rnd.choice(["red", "blue"])
        G.add_node(n, **d)
    for u in names:
        for v in names:
            if (u != v or loops) and rnd.random() < density and (multi or not G.has_edge(u, v)):
                d = {}
                if kind != "adjlist":
                    if rnd.random() < 0.5:
                        d["e"] = rnd.randint(0, 5)
                    if rnd.random() < 0.4:
                        d["kind"] = rnd.choice(["friend", "foe"])
                G.add_edge(u, v, **d)
    if kind == "edgelist":
        G.remove_nodes_from([n for n in list(G) if not G.degree(n)])
        if not len(G):
            G.add_edge("n0", "n1", e=1)
    return G


def run(sc, log):
    rnd = random.Random(str(sc["seed"]))
    source = sc["source"]
    how = sc["how"]
    work = os.path.join(os.getcwd(), "w%s" % sc["id"])
    os.makedirs(os.path.join(work, "nets"), exist_ok=True)
    seed = "s%s" % sc["id"]
    dims = rnd.choice([1, 2, 2, 3])
    low, high = rnd.choice([(-2, 3), (-2, 3), (0, 1), (0, 2)])

    def describe(G):
        v = view(G)
        ps = [[node(n), list(map(int, d["pos"]))] for n, d in G.nodes(data=True) if "pos" in d]
        log("describe", ps=ps, **v)

    def build(desc=None, generator=None, params=None, **kw):
        """The network can be given in different ways"""
        kw.setdefault("seed", seed)
        if generator is not None:
            if how == "late":
                class Env(Environment):
                    def init(self):
                        self.create_network(generator=generator, **params)
                return Env(dir_path=work, **kw)
            return Environment(network_generator=generator, network_params=params, dir_path=work, **kw)
        if how == "late":
            class Env(Environment):
                def init(self):
                    if isinstance(desc, str) and rnd.random() < 0.5:
                        self.create_network(path=desc)
                    else:
                        self.create_network(topology=desc)
            return Env(dir_path=work, **kw)
        if how == "params" and isinstance(desc, str):
            return Environment(network_params={"path": desc}, dir_path=work, **kw)
        return Environment(topology=desc, dir_path=work, **kw)

    if rnd.random() < 0.2:
        # What describes no network
        what = rnd.choice([{}, {"nodes": 3}, {"nodes": [], "links": [{"source": 1}]}, "net.unknown", "net.", "net", "nothing.gexf", None])
        if isinstance(what, str) and what != "nothing.gexf":
            with open(os.path.join(work, what), "w") as f:
                f.write("a b\n")
        env = Environment(dir_path=work, seed=seed)
        try:
            env.create_network(topology=what)
            log("refused", yes=False)
        except Exception:
            log("refused", yes=True)

    strict = dict(alln={"label", "id", "pos"}, alle={"id"})
    if source == "generator":
        takes = rnd.random() < 0.5
        form = rnd.choice(["function", "path", "networkx"])
        n, extra = rnd.randint(1, 6), rnd.randint(0, 3)
        params = dict(n=n)
        if rnd.random() < 0.5:
            params["extra"] = extra
        if form == "networkx":
            name, params, f = rnd.choice([
                ("complete_graph", dict(n=n), nx.complete_graph), ("star_graph", dict(n=n), nx.star_graph),
                ("path_graph", dict(n=n), nx.path_graph), ("cycle_graph", dict(n=n + 2), nx.cycle_graph),
                ("balanced_tree", dict(r=2, h=2), nx.balanced_tree), ("ring_of_cliques", dict(num_cliques=2, clique_size=3), nx.ring_of_cliques),
                ("erdos_renyi_graph", dict(n=7, p=0.5), None), ("barabasi_albert_graph", dict(n=8, m=2), None), ("newman_watts_strogatz_graph", dict(n=8, k=2, p=0.4), None)])
            given = rnd.choice([name, getattr(nx, name)])
            random.seed(1)
            env = build(generator=given, params=dict(params))
            random.seed(2)
            other = build(generator=rnd.choice([name, getattr(nx, name)]), params=dict(params))
            log("twice", a=sorted(map(repr, env.G.edges)), b=sorted(map(repr, other.G.edges)))
            if f:
                describe(f(**params))
            else:
                describe(env.G)
                log("network", **view(nx.Graph(env.G)))
                # The parameters are those that were given
                want = params["n"]
                log("called", p=[["n", str(want)]], q=[["n", str(len(env.G))]], takes=False, seeded=False)
        else:
            fun = gen_seeded if takes else gen_plain
            given = fun
            if form == "path":
                mod = "gens%s" % sc["id"]
                with open(os.path.join(work, mod + ".py"), "w") as f:
                    f.write(MODULE)
                given = "%s.%s" % (mod, "seeded" if takes else "plain")
            calls.clear()
            env = build(generator=given, params=dict(params))
            if not calls:
                log("never-called")
                raise common.Abort()
            got, seeded = calls[-1]
            want = dict(n=params["n"], extra=params.get("extra", 0))
            log("called", p=[[k, str(v)] for k, v in want.items()], q=[[k, str(v)] for k, v in got.items()], takes=takes, seeded=seeded)
            random.seed(2)
            other = build(generator=given, params=dict(params))
            log("twice", a=sorted(map(repr, env.G.edges)), b=sorted(map(repr, other.G.edges)))
            describe(gen_plain(**params) if not takes else env.G)
            if takes:
                log("called", p=[["n", str(params["n"] + params.get("extra", 0))]], q=[["n", str(len(env.G))]], takes=False, seeded=False)
        sys.path[:] = [p for p in sys.path if p != work]
        log("network", **view(env.G))
    else:
        G = described(rnd, source, sc["size"], sc["density"])
        if source in FILES:
            rel = rnd.choice(["net", "nets/other", "net.v2", "nets/a.gml.b.", "nets/v1.0/x.gexf", "my net"]) + "." + source
            for d in (work, "."):
                os.makedirs(os.path.join(d, "nets", "v1.0"), exist_ok=True)
            where = os.path.join(work, rel)
            if source == "edgelist":
                nx.write_edgelist(G, where, data=True)
            else:
                getattr(nx, "write_" + source)(G, where)
            # Another network with the same name, in the current directory
            os.makedirs("nets", exist_ok=True)
            if source == "gexf":
                nx.write_gexf(nx.star_graph(20), rel)
            desc = rel if rnd.random() < 0.7 else where
            desc2 = desc
            if source == "adjlist":
                strict["alle"] = {"id"}
        elif source == "dict":
            desc = nx.node_link_data(G)
            desc2 = desc
        else:
            if rnd.random() < 0.6:
                for n in G:
                    if rnd.random() < 0.9:
                        G.nodes[n]["pos"] = tuple(rnd.randint(low, high) for _ in range(dims))
            desc = desc2 = G
        describe(G if source != "graph" else G.copy())
        env = build(desc)
        log("network", **view(env.G, **strict))
        if source in FILES and rnd.random() < 0.4:
            # The file changes: another network, with the same nodes and as many links
            names = sorted(G)
            perm = {}
            for size in {len(node(n)) for n in names}:
                alike = [n for n in names if len(node(n)) == size]
                perm.update(zip(alike, rnd.sample(alike, len(alike))))
            G = nx.relabel_nodes(G, perm)
            if source == "edgelist":
                nx.write_edgelist(G, where, data=True)
            else:
                getattr(nx, "write_" + source)(G, where)
            describe(G)
            env = build(desc)
            log("network", **view(env.G, **strict))
        env2 = None
        if rnd.random() < 0.5:
            # Another environment, which is populated: the description does not change
            if how == "late":
                env2 = build(desc2)
                env2.populate_network([Z])
            else:
                env2 = build(desc2, agent_class=Z)
            log("network", **view(env2.G, alln=strict["alln"] | {"agent"}, alle=strict["alle"]))
            env3 = build(desc2)
            log("network", **view(env3.G, **strict))
            env2.schedule.agents[0].die() if hasattr(env2.schedule, "agents") and len(list(env2.schedule.agents)) else None
            log("network", **view(env.G, **strict))

    # ---- Agents
    agents = {}

    def isa(a):
        return ISA[type(a)]

    def came(a, was):
        agents[a.unique_id] = a
        if a.node_id in was:
            log("join", a=a.unique_id, n=node(a.node_id), isa=isa(a), v=a.v)
        else:
            log("grow", a=a.unique_id, n=node(a.node_id), isa=isa(a), v=a.v)

    def network():
        log("network", **view(env.G))

    def newcomers(was):
        for a in list(env.schedule.agents):
            if isinstance(a, NetworkAgent) and a.unique_id not in agents:
                came(a, was)

    was = set(env.G.nodes)
    classes = rnd.choice([[X], [Y, X], [X, Y, Z], [Z, X]])
    if rnd.random() < 0.5 and was:
        env.populate_network(classes)
    else:
        for n in rnd.sample(sorted(was, key=repr), rnd.randint(1, len(was))):
            env.add_agent(rnd.choice(classes), node_id=n)
    newcomers(was)
    network()
    others = rnd.random() < 0.3
    if others:
        for _ in range(2):
            env.add_agent(rnd.choice([W, Bare]))

    def place(n):
        p = [rnd.randint(low, high) for _ in range(dims)]
        env.G.nodes[n]["pos"] = tuple(p) if rnd.random() < 0.8 else p
        log("place", n=node(n), p=p)

    def query():
        if not agents:
            return
        a = rnd.choice([agents[k] for k in sorted(agents)])
        f = dict(cls=[], v=[], ids=[], nb=rnd.random() < 0.4, ctr=rnd.random() < 0.5)
        kw = {}
        if rnd.random() < 0.4:
            f["cls"] = [rnd.choice(["X", "Y", "Z"])]
            kw["agent_class"] = CLS[f["cls"][0]]
        if rnd.random() < 0.4:
            f["v"] = [rnd.randint(0, 2)]
            kw["v"] = f["v"][0]
        if rnd.random() < 0.2:
            f["ids"] = [rnd.sample(sorted(agents), rnd.randint(1, len(agents)))]
            kw["unique_id"] = list(f["ids"][0])
        if f["nb"]:
            kw["limit_neighbors"] = True
        elif rnd.random() < 0.2:
            kw["limit_neighbors"] = False
        if isinstance(a, Geo) and "pos" in a.node and rnd.random() < 0.6:
            r = rnd.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 12])
            if f["ctr"]:
                kw["center"] = True
            elif rnd.random() < 0.3:
                kw["center"] = False
            res = a.geo_search(r / 2 if r % 2 else r // 2, **kw)
            log("search", a=a.unique_id, r=r, f=f, res=[node(n) for n in res])
        else:
            if not f["ctr"]:
                kw["center"] = False
            elif rnd.random() < 0.3:
                kw["center"] = True
            S = a.subgraph(**kw)
            log("subgraph", a=a.unique_id, f=f, ns=[node(n) for n in S.nodes], ls=[e for e, _ in edges(S)])

    if rnd.random() < 0.7:
        for n in list(env.G.nodes):
            if rnd.random() < 0.85:
                place(n)
    for c in sc["cmds"]:
        ids = sorted(agents)
        if c == "link" and len(ids) > 1:
            a, b = rnd.sample(ids, 2) if rnd.random() < 0.9 else (ids[0], ids[0])
            agents[a].add_edge(agents[b])
            log("link", a=a, b=b)
        elif c == "die" and len(ids) > 1:
            a = rnd.choice(ids)
            agents.pop(a).die()
            log("die", a=a)
        elif c == "set" and ids:
            a = rnd.choice(ids)
            agents[a].v = rnd.randint(0, 2)
            log("set", a=a, v=agents[a].v)
        elif c == "place" and len(env.G):
            place(rnd.choice(list(env.G.nodes)))
        elif c in ("add", "addnode"):
            was = set(env.G.nodes)
            (env.add_agent if c == "add" else env.add_node)(rnd.choice([X, Y, Z]))
            newcomers(was)
        elif c == "step":
            env.step()
            newcomers(set(env.G.nodes))
        network()
        for _ in range(4):
            query()


common.main(run)
