"""Scripts for drv_msg"""
INF = 100000000
NONE = -1


def react(rnd, ids, quiet=False):
    r = {"v": rnd.choice([NONE, 0, 1, 2, 3, 4, 5, 6, 7]), "op": "", "b": 0}
    if not quiet and rnd.random() < 0.15:
        if rnd.random() < 0.6:
            r.update(op="tell", b=rnd.choice(ids))
        elif rnd.random() < 0.4:
            r.update(op="fail")
        else:
            r.update(op="bcast", bc=bcast(rnd))
    return r


def bcast(rnd):
    return {"k": "bcast", "g": rnd.choice([NONE, 1, 2]), "x": rnd.choice([INF, INF, 0, 2, 4, 6, 8]), "how": rnd.randrange(12)}


def agent(rnd, a, ids, script, g=None, plain=True):
    base = rnd.choice(["evt", "evt", "agent", "fsm"])
    if plain and rnd.random() < 0.1:
        base = "plain"
    return {"a": a, "g": g or rnd.choice([1, 2]), "base": base, "kind": rnd.choice(["gen", "co"]), "style": rnd.randrange(2),
            "script": script, "react": [react(rnd, ids) for _ in range(12)]}


def from_tlc(rnd, beh):
    """What the agents do in a behaviour of GenMsg"""
    t = 0
    ids = [1, 2, 3]
    scripts = {a: [] for a in ids}
    q = rnd.choice([4, 4, 2])
    for h in beh["h"]:
        if h["k"] == "tick":
            t += q
            continue
        op = {"k": h["k"], "t": t, "how": rnd.randrange(12)}
        if h["k"] in ("tell", "ask"):
            op["b"] = h["b"]
        if h["k"] == "bcast":
            op["g"] = h["g"]
        if h["k"] in ("bcast", "ask", "get"):
            op["x"] = h["x"] if h["x"] == INF else h["x"] * q
        if h["k"] in ("ask", "get"):
            op["d"] = h["d"] * q
        scripts[h["a"]].append(op)
    g = beh["g"]
    return {"cfg": {}, "agents": [agent(rnd, a, ids, scripts[a], g=g[a - 1], plain=False) for a in ids], "env": [], "steps": 60,
            "sched": rnd.choice(["timed", "pq", "ord"])}


def rand(rnd, waits=True):
    n = rnd.randint(1, 5)
    ids = list(range(n))
    agents = []
    for a in ids:
        t = 0
        script = []
        for _ in range(rnd.randint(1, 12)):
            t += rnd.choice([0, 0, 0, 1, 2, 4, 4, 6])
            k = rnd.choice(["tell", "tell", "bcast", "process", "process"] + (["ask", "ask", "get", "get", "peek"] if waits else []))
            if rnd.random() < 0.03:
                k = rnd.choice(["die", "kill"])
            op = {"k": k, "t": t, "how": rnd.randrange(12), "b": rnd.choice(ids), "g": rnd.choice([NONE, 1, 2]),
                  "x": rnd.choice([INF, INF, 0, 2, 4, 6, 8]), "d": 4}
            if k == "ask":
                op["b"] = rnd.choice([i for i in ids if i != a] or [a])
                op["x"] = rnd.choice([INF, 0, -4, 1, 4, 6, 8, 20, 20]) if n > 1 else 8
                op["d"] = rnd.choice([4, 4, 1, 2, 6])
                if op["x"] == INF and rnd.random() < 0.2:
                    # It may be a long time
                    op["d"] = rnd.choice([400, 6000])
            elif k in ("get", "peek"):
                op["x"] = rnd.choice([0, -4, 1, 4, 6, 8, 20, 20, 20, 240])
                op["d"] = rnd.choice([4, 4, 1, 2, 6])
            script.append(op)
            if k == "die":
                break
        agents.append(agent(rnd, a, ids, script))
    if any(op["k"] == "peek" for a in agents for op in a["script"]):
        # The raw inbox has the expired messages too
        for a in agents:
            for op in a["script"] + [r["bc"] for r in a["react"] if "bc" in r]:
                if op["k"] == "bcast":
                    op["x"] = INF
    env = []
    for _ in range(rnd.choice([0, 0, 1, 3])):
        env.append({"n": rnd.randrange(10), "k": rnd.choice(["bcast", "tell", "kill"]), "b": rnd.choice(ids),
                    "g": rnd.choice([NONE, 1, 2]), "x": INF, "how": rnd.randrange(12)})
    # (until the usual deadline, at least)
    steps = 200 if any(op["k"] in ("get", "peek") and op["x"] == 240 for a in agents for op in a["script"]) else 60
    return {"cfg": {}, "agents": agents, "env": env, "steps": steps, "sched": rnd.choice(["timed", "timed", "pq", "ord"])}


def large(rnd):
    """Agents with a lot of messages in the inbox, or a long history"""
    ids = [0, 1, 2, 3]
    scripts = {a: [] for a in ids}
    how = lambda: rnd.randrange(12)
    if rnd.random() < 0.6:
        # Everybody sends at the beginning, and they read it in one go or in a few
        n = rnd.randint(20, 70)
        for a in ids[1:]:
            for _ in range(n):
                if rnd.random() < 0.9:
                    scripts[a].append({"k": "tell", "t": 0, "how": how(), "b": rnd.choice([0, 0, 0, 1])})
                else:
                    scripts[a].append({"k": "bcast", "t": 0, "how": how(), "g": rnd.choice([NONE, 1, 2]), "x": rnd.choice([INF, 4, 40])})
        for a in ids[:2]:
            for t in (4, 8, 44):
                scripts[a].append({"k": rnd.choice(["process", "process", "get"]), "t": t, "how": how(), "x": 8, "d": 4})
    else:
        for a in ids:
            t = 0
            for _ in range(rnd.randint(20, 60)):
                t += rnd.choice([0, 0, 1, 4])
                k = rnd.choice(["tell", "tell", "bcast", "process", "ask", "get"])
                scripts[a].append({"k": k, "t": t, "how": how(), "b": rnd.choice([i for i in ids if i != a]), "g": rnd.choice([NONE, 1, 2]),
                                   "x": rnd.choice([8, 20]) if k in ("ask", "get") else rnd.choice([INF, 4, 8]), "d": 4})
    agents = [dict(agent(rnd, a, ids, scripts[a], plain=False), react=[react(rnd, ids, quiet=True) for _ in range(200)]) for a in ids]
    return {"cfg": {}, "agents": agents, "env": [], "steps": 300, "sched": rnd.choice(["timed", "pq", "ord"])}
