INF = 100000000
NONE = -1
FORMS = ["obj", "id", "pair", "idpair", "list", "delay", "at"] * 2 + ["class", "other"]
MORE = ["s%d" % i for i in range(20)]
NAMES = ["a", "b", "ab", "dormant", "X1", "no", "st ate", "id"]


def action(rnd, names, direct):
    d = rnd.choice([0, 0, 4, 8, 6, 2, 1])
    if rnd.random() < 0.05:
        d = INF
    if rnd.random() < 0.2 and not direct:
        return {"y": 1, "s": "", "d": d if d != INF else 4, "form": "num", "sub": rnd.choice(["num", "Delay", "delay", "at", "int"])}
    s = rnd.choice(names + [""])
    if rnd.random() < 0.03:
        return {"y": 0, "s": "dead", "d": INF, "form": "die"}
    if rnd.random() < 0.02:
        s = "dead"
    form = rnd.choice(FORMS) if s else rnd.choice(["num", "pair", "self", "selfid", "selfdelay", "num"])
    if d == INF and form == "selfdelay":
        form = "pair"
    return {"y": 0, "s": s, "d": d, "form": form, "sub": rnd.choice(["num", "Delay", "delay", "at", "int"]), "kept": rnd.random() < 0.2}


def fsm(rnd, large=False):
    """Random machines (the large ones, with many states or a long history)"""
    n = rnd.randint(5, 20) if large else rnd.randint(1, 4)
    names = rnd.sample(NAMES[:-1] + (MORE if large else []), n)
    direct = not large and rnd.random() < 0.35
    states = [{"name": x, "kind": rnd.choice(["func", "func", "gen", "async"]), "style": rnd.randrange(5)} for x in names]
    for s in states:
        if not s["name"].isidentifier():
            s["style"] = 2
    default = rnd.choice(names)
    agents = []
    for a in range(rnd.randint(1, 4)):
        script = [action(rnd, names, direct) for _ in range(rnd.randint(30, 120) if large else rnd.randint(1, 10))]
        for act in script if direct else script[:1]:
            if rnd.random() < 0.15:
                act["set"] = rnd.choice(names)
        if direct:
            for act in script:
                if rnd.random() < 0.1:
                    act["bad"] = rnd.choice([1, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10])
        agents.append({"a": a, "init": rnd.choice([default, rnd.choice(names)]), "script": script})
    return {"cfg": {"dflt": rnd.choice([4, 4, 8, 2]), "states": names + ["dead"]}, "base": rnd.choice(["fsm", "agent"]), "states": states,
            "default": default, "agents": agents, "direct": direct, "twin": rnd.random() < 0.2, "sched": rnd.choice(["timed", "pq"]), "steps": 250 if large else 40}


def from_tlc(rnd, beh):
    """A behaviour of Fsm: sequence of asks and yields of each agent"""
    names = sorted({"a", "b", "c"})
    ren = dict(zip(names, rnd.sample(NAMES[:5], 3)))
    ren[""] = ""
    ren["dead"] = "dead"
    scripts = {}
    init = {}
    for h in beh:
        if h["k"] == "make":
            init[h["a"]] = ren[h["s"]]
            scripts[h["a"]] = []
        elif h["k"] in ("ask", "yield"):
            d = h["d"] * 4 if h["d"] not in (0, INF) else h["d"]
            if h["k"] == "yield":
                scripts[h["a"]].append({"y": 1, "s": "", "d": d if d != INF else 4, "form": "num", "sub": rnd.choice(["num", "Delay", "delay", "at", "int"])})
            else:
                s = ren[h["s"]]
                form = rnd.choice(FORMS) if s else rnd.choice(["num", "pair", "self", "selfid", "num"])
                scripts[h["a"]].append({"y": 0, "s": s, "d": d, "form": form, "sub": rnd.choice(["num", "Delay", "delay", "at", "int"])})
    sn = [ren[x] for x in names]
    default = rnd.choice(sn)
    return {"cfg": {"dflt": 4, "states": sn + ["dead"]}, "base": rnd.choice(["fsm", "agent"]),
            "states": [{"name": x, "kind": rnd.choice(["func", "func", "gen", "async"]), "style": rnd.randrange(5)} for x in sn],
            "default": default, "agents": [{"a": a, "init": init[a], "script": scripts[a]} for a in init], "direct": False,
            "sched": rnd.choice(["timed", "pq"]), "steps": 40}


def chain_scenario(rnd, chain):
    return {"cfg": {"chain": chain}, "base": rnd.randrange(2), "style": rnd.randrange(5), "sibling": rnd.random() < 0.5}


def random_chain(rnd, large=False):
    # The state for dead agents may be redefined as well
    ids = ["a", "b", "c", "Dd", "e"] + (MORE if large else []) + (["dead"] if rnd.random() < 0.4 else [])
    chain = []
    for _ in range(rnd.randint(3, 9) if large else rnd.randint(1, 5)):
        names = rnd.sample(ids, rnd.randint(0, 8 if large else 4))
        d = rnd.choice(names + [None, None]) if names else None
        chain.append([{"name": x, "default": x == d} for x in names])
    return chain


def run(rnd, tlim=None, slim=None, large=False):
    agents = []
    for _ in range(rnd.randint(1, 3)):
        waits = rnd.choice([[4], [4, 8], [1, 2, 3], [0, 6], [4, 40]])
        script = [rnd.choice(waits) for _ in range(rnd.randint(80, 160) if large else rnd.randint(0, 12))]
        r = rnd.random()
        if r < 0.12:
            script.append("stop")
        elif r < 0.24:
            script.append("die")
        agents.append({"t": rnd.choice([NONE, NONE, 0, 4, 6]), "script": script})
    if rnd.random() < 0.05:
        agents = []
    if tlim is None:
        tlim = rnd.choice([NONE, NONE, 0, 4, 8, 6, 20, 21, 12, INF])
        slim = rnd.choice([NONE, NONE, NONE, 0, 1, 2, 5])
    if large:
        tlim, slim = rnd.choice([(NONE, NONE), (rnd.randint(300, 600), NONE), (NONE, rnd.randint(70, 170)), (rnd.randint(300, 600), rnd.randint(70, 170))])
    return {"cfg": {"t": tlim, "s": slim}, "agents": agents, "sched": rnd.choice(["timed", "pq", "ord"]),
            "how": rnd.choice(["sim", "sim", "replace", "env", "soil"]), "iters": rnd.choice([1, 1, 2, 3]), "stopped": rnd.random() < 0.03}
