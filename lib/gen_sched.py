"""Scenarios for drv_sched: behaviours generated by TLC from GenSched.tla, and
random ones (with more agents, more kinds of agent and longer runs)."""
import random

INF = 100000000
NONE = -1
ALL_KINDS = ["plain", "gen", "genend", "async", "fsm", "fsmgen", "net", "netfsm", "evt", "mesa"]
FREE = ["timed", "timed_shuf", "pq", "default"]
FIFO = ["timed_ord", "timed_ord2"]
UID = ["pq_ord"]
FORMS = ["int", "float", "Delay", "delay", "at"]


def wait_form(rnd, d, kind, step):
    """How the agent asks for a delay of d"""
    if d == 0:
        return [rnd.choice(["none", "none", "zero"]), 0]
    if d == INF:
        f = rnd.choice(["inf", "Dinf"] if kind != "mesa" else ["inf"])
        return [f, INF]
    if kind == "mesa":
        return [rnd.choice(["int", "float"]), d]
    return [rnd.choice(FORMS), d]


def scaled(s, rnd):
    """The same scenario with another unit of time, or later on"""
    s["scale"], s["base"] = rnd.choice([(4, 0)] * 5 + [(2 ** 30, 0), (2 ** 42, 0), (2 ** 12, 2 ** 20), (2 ** 20, 2 ** 10), (2 ** -16, 0), (2 ** -42, 0), (4, 1000)])
    return s


def from_tlc(beh, rnd, order_filter=None, kinds=None):
    """A behaviour of the specification, as scripts for its agents"""
    order = beh["c"]["order"]
    sched = rnd.choice({"free": FREE, "fifo": FIFO, "uid": UID}[order])
    mult = rnd.choice([1, 2, 4, 4, 6])
    kinds = kinds or ALL_KINDS
    agents, init, outside = {}, [], {}
    now, step, cur, started = 0, 0, None, False
    used = sorted({h["a"] for h in beh["h"] if h["k"] in ("add", "past")})
    for a in used:
        agents[a] = {"a": a, "kind": rnd.choice(kinds), "script": []}
    for h in beh["h"]:
        k, a, w = h["k"], h["a"], h["w"]
        op = None
        if k == "add":
            rel = NONE if w == -1 else (w - now) * mult
            if not started:
                init.append([a, NONE if w == -1 else w * mult])
                continue
            op = ["add", a, rel]
        elif k == "past":
            op = ["past", a, (now - w) * mult]
        elif k == "kill":
            op = ["kill", a, rnd.choice(["die", "die", "stay", "remove", "both", "node"])]
        elif k == "begin":
            started = True
        elif k == "act":
            cur = a
            agents[a]["script"].append({"ops": [], "wait": ["inf", INF]})
        elif k == "ret":
            d = w if w in (0, INF) else w * mult
            agents[a]["script"][-1]["wait"] = wait_form(rnd, d, agents[a]["kind"], step)
            cur = None
        elif k == "end":
            now = w
            step += 1
        if op:
            if cur is not None:
                agents[cur]["script"][-1]["ops"].append(op)
            else:
                outside.setdefault(step, []).append(op)
    return scaled({"sched": sched, "cfg": {"dflt": beh["c"]["dflt"] * mult, "order": order}, "agents": list(agents.values()),
            "init": init, "outside": [{"n": n, "ops": o} for (n, o) in outside.items()], "steps": 40,
            "seed": rnd.randrange(10 ** 6), "net": any(a["kind"].startswith("net") for a in agents.values())}, rnd)


def rand(rnd, scheds, kinds=None, kills=True, adds=True, past=False, maxn=7, maxacts=6, deathmix=0.15, minn=1, grid=None, steps=60):
    sched = rnd.choice(scheds)
    order = "fifo" if sched in FIFO else "uid" if sched in UID else "free"
    n = rnd.randint(minn, maxn)
    ids = list(range(n))
    if rnd.random() < 0.3:
        ids = rnd.sample(range(max(50, n)), n)
    elif rnd.random() < 0.2:
        # (with a different number of digits)
        first = rnd.choice([7, 97, 996, 9998])
        ids = rnd.sample(range(first, first + n + 3), n)
    extra = list(range(1000, 1000 + (rnd.randint(0, 3) if adds else 0)))
    extra = [i for i in extra if i not in ids]
    allids = ids + extra
    kinds = kinds or ALL_KINDS
    if rnd.random() < 0.3:
        kinds = [rnd.choice(kinds)]
    grid = grid or rnd.choice([[4], [1, 2, 3, 4], [4, 8, 12], [1, 4, 5, 6, 40], [2, 4, 6, 4000]])
    delays = grid + [0] * rnd.choice([0, 1, 2]) + [INF] * rnd.choice([0, 0, 1])
    agents = []
    for a in allids:
        k = rnd.choice(kinds)
        script = []
        for _ in range(rnd.randint(min(maxacts, max(1, maxacts - 5)), maxacts)):
            ops = []
            while rnd.random() < deathmix:
                if kills and rnd.random() < 0.6:
                    ops.append(["kill", rnd.choice(allids), rnd.choice(["die", "stay", "remove", "both", "node"])])
                elif extra:
                    ops.append(["add", rnd.choice(extra), rnd.choice([NONE, 0, 1, 4, 4, 8])])
            if rnd.random() < 0.04:
                ops.append(["again", rnd.choice(allids), rnd.choice([NONE, 0, 1, 4, 8])])
            if kills and rnd.random() < deathmix / 2:
                wait = ["die", INF]
            else:
                wait = wait_form(rnd, rnd.choice(delays), k, 0)
            script.append({"ops": ops, "wait": wait})
        agents.append({"a": a, "kind": k, "script": script})
    outside = []
    for s in range(1, 12):
        ops = []
        if extra and rnd.random() < 0.15:
            ops.append(["add", rnd.choice(extra), rnd.choice([NONE, 0, 2, 4, 8])])
        if kills and rnd.random() < 0.08:
            ops.append(["kill", rnd.choice(allids), rnd.choice(["die", "stay", "remove", "both", "node"])])
        if past and rnd.random() < 0.25:
            ops.append(["past", 900 + s, rnd.choice([1, 4, 8])])
        if rnd.random() < 0.1:
            ops.append(["again", rnd.choice(allids), rnd.choice([NONE, 0, 1, 4, 8])])
        if ops:
            outside.append({"n": s, "ops": ops})
    if past and rnd.random() < 0.3:
        a = rnd.choice(agents)
        rnd.choice(a["script"])["wait"] = ["back", rnd.choice([1, 2, 4, 40])]
    return scaled({"sched": sched, "cfg": {"dflt": rnd.choice([4, 4, 4, 2, 8, 10]), "order": order}, "agents": agents,
            "init": [[a, rnd.choice([NONE, NONE, 0, 4, 6, 8])] for a in ids], "outside": outside, "steps": steps,
            "seed": rnd.randrange(10 ** 6), "net": any(a["kind"].startswith("net") for a in agents)}, rnd)


def large(rnd, **kw):
    """Many agents at the same time, at many different times, or for a long time"""
    kw = dict(kw, deathmix=kw.get("deathmix", 0.15) / 5)
    k = rnd.randrange(4)
    if k == 0:
        return rand(rnd, minn=40, maxn=120, maxacts=2, grid=[4], steps=8, **kw)
    if k == 1:
        return rand(rnd, minn=40, maxn=120, maxacts=2, grid=list(range(1, 400)), steps=300, **kw)
    if k == 2:
        # More different times than agents are usual
        return rand(rnd, minn=350, maxn=420, maxacts=1, grid=list(range(1, 2000)), steps=450, **kw)
    return rand(rnd, minn=1, maxn=3, maxacts=120, steps=300, **kw)
