"""Agents whose step or states are generators and coroutines (Coro.tla)."""
import common
from common import T, U, INF

soil = common.soil_module()
from soil import Environment, BaseAgent, FSM
from soil import agents as sagents
from soil.agents.fsm import state
from soil import time as stime


class Broken(Exception):
    pass


def seg(self, s, i, acc):
    fails = getattr(self.model, "fails_", {}).get(self.unique_id)
    if fails and fails.pop(0):
        self.model.log_("break", a=self.unique_id, s=s, i=i, x=acc, t=T(self.now))
        raise Broken()
    self.model.log_("seg", a=self.unique_id, s=s, i=i, x=acc, t=T(self.now))


def value(self, d, how):
    """What is yielded or returned to ask for a delay of d"""
    if d == 0:
        return [None, 0, stime.Delay(0), self.delay(0), self.at(self.now)][how % 5]
    u = U(d)
    return [u, stime.Delay(u), self.delay(u), self.at(self.now + u)][how % 4]


# --- generators, with nested generators -------------------------------------
def gen_part(self, s, segs, lo, hi, acc, cuts):
    """Segments lo..hi (from 1), all of them suspended.  Returns the locals"""
    i = lo
    while i <= hi:
        if i in cuts and i < hi:
            sub = cuts[i]
            end = min(hi, i + sub["len"] - 1)
            acc = yield from gen_part(self, s, segs, i, end, acc, {k: v for (k, v) in cuts.items() if k > i})
            i = end + 1
            continue
        seg(self, s, i, acc)
        acc = (2 * acc + i) % 1000003
        mine = acc
        yield value(self, segs[i - 1], i + self.unique_id)
        assert mine == acc
        i += 1
    return acc


async def co_part(self, s, segs, lo, hi, acc, cuts):
    i = lo
    while i <= hi:
        if i in cuts and i < hi:
            sub = cuts[i]
            end = min(hi, i + sub["len"] - 1)
            acc = await co_part(self, s, segs, i, end, acc, {k: v for (k, v) in cuts.items() if k > i})
            i = end + 1
            continue
        seg(self, s, i, acc)
        acc = (2 * acc + i) % 1000003
        d = segs[i - 1]
        how = (i + self.unique_id) % 3
        u = U(d)
        await [stime.Delay(u), self.delay(u), self.at(self.now + u)][how]
        i += 1
    return acc


def make_body(name, spec):
    segs, kind, nxt = spec["segs"], spec["kind"], spec["next"]
    cuts = {c["at"]: c for c in spec.get("cuts", [])}
    n = len(segs)

    def result(self):
        d = segs[n - 1]
        how = spec["how"] + self.unique_id
        if not spec["fsm"]:
            return value(self, d, how)
        target = getattr(self, nxt)
        if d == 0:
            if nxt == name and how % 2:
                return None
            return [target, nxt, target.delay(), target.at(self.now), (nxt, 0)][how % 5]
        if nxt == name and how % 2:
            return value(self, d, how)
        u = U(d)
        return [(target, u), (nxt, stime.Delay(u)), target.delay(u), target.at(self.now + u)][how % 4]

    if kind == "func":
        def body(self):
            assert n == 1
            seg(self, name, 1, 0)
            return result(self)
    elif kind == "gen":
        def body(self):
            acc = yield from gen_part(self, name, segs, 1, n - 1, 0, cuts)
            seg(self, name, n, acc)
            return result(self)
    elif kind == "genflat":
        # Only the generator itself, with its local variables
        def body(self):
            acc = 0
            for i in range(1, n):
                seg(self, name, i, acc)
                acc = (2 * acc + i) % 1000003
                yield value(self, segs[i - 1], i)
            seg(self, name, n, acc)
            return result(self)
    else:
        async def body(self):
            acc = await co_part(self, name, segs, 1, n - 1, 0, cuts)
            seg(self, name, n, acc)
            return result(self)
    body.__name__ = name
    return body


def make_class(spec, base):
    if not spec["fsm"]:
        st = spec["states"][0]
        return type("Coro", (base,), {"step": make_body(st["name"], dict(st, fsm=False))})
    ns = {}
    for st in spec["states"]:
        ns[st["name"]] = state(default=st["name"] == spec["init"])(make_body(st["name"], dict(st, fsm=True)))
    return type("CoroFsm", (base,), ns)


def run(sc, log):
    class Env(Environment):
        def init(self):
            self.log_ = log

    kw = {}
    if sc["sched"] == "pq":
        kw["schedule_class"] = stime.PQueueActivation
    elif sc["sched"] == "ord":
        kw["schedule_class"] = stime.OrderedTimedActivation
    env = Env(seed=str(sc["id"]), default_interval=U(sc["cfg"]["dflt"]), **kw)
    classes = []
    for spec in sc["classes"]:
        base = {"base": BaseAgent, "evt": sagents.EventedAgent, "agent": sagents.Agent, "fsm": FSM}[spec["base"]]
        classes.append(make_class(spec, base))
    async def mixed(self):
        await self.delay(1)
        yield 1

    async def co(self):
        await self.delay(1)

    def gen(self):
        yield 1

    for (w, f) in (("mixed", mixed), ("number", 5), ("text", "step"), ("co", co), ("gen", gen), ("plain", lambda self: None)):
        refused = False
        base = [BaseAgent, sagents.EventedAgent, sagents.NetworkAgent][sc["id"] % 3]
        try:
            type("Defined", (base,), {"step": f})
        except ValueError:
            refused = True
        log("define", w=w, r=refused)
    for (n, a) in enumerate(sc["agents"]):
        spec = sc["classes"][a["cls"]]
        p = {"init": spec["init"], "states": {s["name"]: {"segs": s["segs"], "next": s["next"]} for s in spec["states"]}}
        log("start", a=n, p=p, t=a["t"])
        ag = classes[a["cls"]](unique_id=n, model=env)
        env.schedule.add(ag, when=U(a["t"]))
    if sc.get("fails"):
        # Activated by hand, at the times they ask for, catching their errors
        env.fails_ = {n: list(f) for n, f in enumerate(sc["fails"])}
        wake = {n: U(a["t"]) for n, a in enumerate(sc["agents"])}
        agents = {a.unique_id: a for a in env.schedule.agents}
        for _ in range(sc["steps"] * len(wake)):
            n = min(wake, key=lambda k: (wake[k], k))
            if wake[n] == float("inf"):
                break
            env.schedule.time = wake[n]
            try:
                d = agents[n].step()
            except Broken:
                d = None
            wake[n] += d or U(sc["cfg"]["dflt"])
            log("clock", t=T(min(wake.values())))
        return
    for _ in range(sc["steps"]):
        env.step()
        log("clock", t=T(env.now))
        if not env.running:
            break


if __name__ == "__main__":
    common.main(run)
