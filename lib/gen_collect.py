"""Scenarios for drv_collect"""
MODEL = ["x", "twice", "alias", "prop", "meth", "given", "givenattr", "count_b", "own_count"]
AGENT = ["v", "vf", "z", "onlyb", "onlyfm", "state_id", "ga", "gb", "mx", "my"]


def act(rnd):
    return {"set": rnd.choice([None, 1, 2, 2.5, "t", True, 0]), "x": rnd.choice([None, None, 1, "u", 3.5, False, 0]), "y": rnd.choice([None, 1, 2, -1]),
            "add": rnd.choice([0, 0, 0, 0, 0, 1, 2, 3]), "kill": rnd.choice([0] * 8 + [1, 2]), "die": rnd.random() < 0.15,
            "row": rnd.choice([0, 0, 1, 2, 3]),
            "d": rnd.choice([0, 0, 4, 2, 6, 12])}


def rand(rnd, model=None, agent=None, large=False):
    n = rnd.randint(30, 60) if large else rnd.randint(1, 5)
    late = rnd.choice([[0], [0], [0, 6], [4, 6, 40]])
    agents = [{"cls": rnd.choice("AABCMAABCMP"), "script": [act(rnd) for _ in range(rnd.randint(0, 8))], "t": rnd.choice(late)} for _ in range(n)]
    if not large and rnd.random() < 0.05:
        agents = []
    steps = rnd.randint(0, 12)
    if large:
        # Many agents or many steps
        steps = rnd.randint(4, 12)
        if rnd.random() < 0.5:
            agents, steps = agents[:3], rnd.randint(60, 120)
    mortal = rnd.random() < 0.3
    if mortal:
        for a in agents:
            a["cls"] = rnd.choice("ABC")
            a["script"] = a["script"] + [dict(act(rnd), die=True)]
    how = rnd.choice(["direct", "direct", "sim", "params"]) if agents else "direct"
    return {"cfg": {}, "mortal": mortal, "more": rnd.choice([0, 1, 3]), "model": rnd.sample(MODEL, rnd.randint(0, 9)) if model is None else model,
            "agent": rnd.sample(AGENT, rnd.randint(0, 10)) if agent is None else agent,
            "agents": agents, "steps": steps, "peeks": [rnd.randrange(8) for _ in range(rnd.choice([0, 1, 2]))],
            "base": rnd.choice(["env", "env", "net", "evt", "base"]), "sched": rnd.choice(["timed", "pq"]),
            "how": how, "noise": rnd.random() < 0.3, "inherit": rnd.random() < 0.3, "tables": rnd.choice([[], ["sales"], ["sales", "visits"]])}
