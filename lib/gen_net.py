"""Scenarios for drv_net"""
CMDS = ["add", "addat", "addnode", "addnew", "many", "all", "plain", "populate", "die", "leave", "unode", "udrop", "uedge", "ucut", "link", "parent", "addid", "step"]


def topo(rnd, large=False):
    n = rnd.randint(40, 110) if large else rnd.choice([0, 1, 2, 3, 3, 5, 8])
    kind = rnd.randrange(5)
    if kind < 2:
        nodes = list(range(n))
    elif kind == 2:
        nodes = ["n%d" % i for i in range(n)]
    elif kind == 3:
        nodes = [i * 2 + 1 for i in range(n)]
    else:
        nodes = rnd.sample(range(n + 3), n)
    if large and rnd.random() < 0.3:
        # A node linked to all of the others
        return nodes, [[nodes[0], v] for v in nodes[1:]]
    edges = [[u, v] for i, u in enumerate(nodes) for v in nodes[:i] if rnd.random() < (0.02 if large else 0.35)]
    return nodes, edges


def scenario(rnd, cmds, large=False):
    nodes, edges = topo(rnd, large)
    pre = None
    if rnd.random() < 0.35:
        cs = rnd.sample(["Net", "Net2", "Full", "Plain", "Bare"], rnd.randint(1, 3))
        pre = {"agent_classes": cs, "k": rnd.choice([0, 1, 2, 4] + ([None] if nodes else []))}
        if rnd.random() < 0.5:
            pre["weights"] = [rnd.choice([0, 1, 2.5]) for _ in cs]
            if not any(pre["weights"]):
                pre["weights"][-1] = 0.1
        if rnd.random() < 0.5:
            pre["p"] = rnd.choice([1, "x", False])
    how = rnd.randrange(6)
    if nodes and rnd.random() < 0.06:
        # Nodes may name their agents
        how = rnd.choice([1, 5])
        pre = {"agent_classes": rnd.choice([["Plain"], ["Bare"], ["Plain", "Bare"]]), "k": rnd.choice([1, 2, 4, None])}
    return {"cfg": {"nodes": [repr(n) for n in nodes], "edges": [[repr(u), repr(v)] for u, v in edges]}, "nodes": nodes, "edges": edges,
            "cmds": cmds, "pre": pre, "seed": rnd.randrange(10 ** 6), "how": how, "attrs": rnd.random() < 0.3,
            "sched": rnd.choice(["timed", "pq"]), "inside": rnd.random() < 0.4, "ks": [20, 40, 70] if large else [0, 1, 2, 3, 5]}


def large(rnd):
    """Large networks, and many agents at a time"""
    cmds = [rnd.choice(["populate", "populate", "all", "many"]), "die"] + rnd.choices(["populate", "all", "many", "die", "parent", "add", "addnode", "addid", "udrop", "link"], k=rnd.randint(2, 5))
    return scenario(rnd, cmds, large=True)


def rand(rnd, weights=None, n=None):
    return scenario(rnd, rnd.choices(CMDS, weights=weights, k=n or rnd.randint(3, 14)))
