"""Models for the lockstep scheduler"""
INF = 100000000


def script(rnd, delays):
    return [{"add": rnd.random() < 0.12, "kill": rnd.randint(1, 5) if rnd.random() < 0.08 else 0, "die": rnd.random() < 0.05,
             "d": INF if rnd.random() < 0.03 else None if rnd.random() < 0.15 else rnd.choice(delays),
             "abs": rnd.random() < 0.15, "form": rnd.random() < 0.3} for _ in range(rnd.randint(1, 10))]


def rand(rnd, w, sched):
    delays = rnd.choice([[1, 2, 3], [w], [w, 1], [w, 2 * w, 3 * w], [1, 4, 7, 9, 16], [0, 1, 4, 40], [2, 6, 10]])
    return {"cfg": {"w": w, "d": None}, "sched": sched, "base": rnd.choice(["env", "base"]), "default": rnd.choice([4, 4, 1, 2, 6]), "plain": rnd.random() < 0.5,
            "direct": rnd.random() < 0.5, "agents": [script(rnd, delays) for _ in range(rnd.randint(1, 4))], "later": [script(rnd, delays) for _ in range(3)],
            "steps": rnd.randint(3, 12)}


def scenario(rnd, w, sched, large=False):
    s = rand(rnd, w, sched)
    if large and rnd.random() < 0.5:
        s.update(agents=[sum((script(rnd, [1, 2, 3, w]) for _ in range(20)), []) for _ in range(2)], steps=80)
    elif large:
        s.update(agents=[script(rnd, [1, 2, w]) for _ in range(40)], steps=10)
    s["cfg"]["d"] = s["default"]
    s["scale"], s["start"] = rnd.choice([(4, 0)] * 3 + [(4, 10), (4, 0.25), (2 ** 30, 0), (2 ** 10, 2 ** 20)])
    return s
