"""Evented agents that follow scripts of messages, questions and waits (Msg.tla)."""
import common
from common import T, U, INF, NONE

soil = common.soil_module()
from soil import Environment, BaseAgent
from soil import agents as sagents
from soil.agents.fsm import state
from soil.events import TimedOut
from soil import time as stime


class P:
    """A message (some of them are false)"""

    def __init__(self, n):
        self.n = n

    def __bool__(self):
        return self.n % 2 == 0

    # Different messages may be equal
    def __eq__(self, other):
        return isinstance(other, P) and self.n // 5 == other.n // 5

    def __hash__(self):
        return self.n // 5


class Boom(Exception):
    pass


VALUES = [0, False, "", [], 7, "x", P(1001), P(1002)]


def value_id(v):
    if v is None:
        return NONE
    for i, x in enumerate(VALUES):
        if type(x) is type(v) and (x is v if isinstance(x, P) else x == v):
            return i
    return 99


# Messages may be sent by things that are not agents
SENDERS = ["", 0, "somebody", False]


def sid(sender):
    if sender is None:
        return NONE
    for i, x in enumerate(SENDERS):
        if type(x) is type(sender) and x == sender:
            return 200000 + i
    return getattr(sender, "unique_id", 98)


def pid(payload):
    return payload.n if isinstance(payload, P) else 99999


class Ctx:
    def __init__(self, sc, log, env):
        self.sc, self.log, self.env = sc, log, env
        self.n = 0
        self.agents = {}
        self.react = {a["a"]: list(a["react"]) for a in sc["agents"]}

    def fresh(self):
        self.n += 1
        return P(self.n)

    def tell(self, b, sender):
        m = self.fresh()
        if sender is None and m.n % 3 == 0:
            sender = SENDERS[m.n % len(SENDERS)]
        self.log("tell", b=b, m=m.n, s=sid(sender))
        if sender is None:
            self.agents[b].tell(m)
        else:
            self.agents[b].tell(m, sender=sender)

    def bcast(self, op, sender):
        m = self.fresh()
        kw = {}
        g = op["g"]
        if g != NONE:
            how = op["how"] % 3
            if how == 0:
                kw["group"] = g
            elif how == 1:
                kw["agent_class"] = self.classes[g]
            else:
                kw["state"] = {"group": g}
        if op["x"] != INF:
            if op["how"] % 2:
                kw["ttl"] = U(op["x"])
            else:
                kw["expiration"] = self.env.now + U(op["x"])
        if sender is not None:
            kw["sender"] = sender
        self.log("bcast", m=m.n, s=sid(sender), g=g, x=INF if op["x"] == INF else T(self.env.now) + op["x"])
        self.env.broadcast(m, **kw)

    def kill(self, b):
        if b in self.agents and self.agents[b].alive:
            self.log("leave", a=b)
            self.agents[b].die()


def received(self, msg, sender):
    c = self.model.ctx
    q = c.react[self.unique_id]
    r = q.pop(0) if q else {"v": NONE, "op": "", "b": 0}
    fails = r["op"] == "fail"
    c.log("recv", a=self.unique_id, m=pid(msg), s=sid(sender), v=NONE if fails else r["v"], t=T(self.now))
    if fails:
        raise Boom()
    if r["op"] == "tell" and c.agents[r["b"]].alive and hasattr(c.agents[r["b"]], "tell"):
        c.tell(r["b"], self)
    elif r["op"] == "bcast":
        c.bcast(r["bc"], self)
    return VALUES[r["v"]] if r["v"] != NONE else None


def simple(self, op):
    """Operations that do not take time.  False if it was not one of them"""
    c = self.model.ctx
    k = op["k"]
    if k == "tell":
        if c.agents[op["b"]].alive and hasattr(c.agents[op["b"]], "tell"):
            c.tell(op["b"], self if op["how"] % 3 else None)
    elif k == "bcast":
        c.bcast(op, self if op["how"] % 4 else None)
    elif k == "process":
        if hasattr(self, "process_messages"):
            c.log("start", a=self.unique_id)
            try:
                self.process_messages()
            except Boom:
                c.log("break", a=self.unique_id)
            else:
                c.log("end", a=self.unique_id)
    elif k == "kill":
        if op["b"] != self.unique_id:
            c.kill(op["b"])
    else:
        return False
    return True


def waiting(self, op):
    """The generator of an operation that waits, once logged (or None)"""
    c = self.model.ctx
    k = op["k"]
    if k == "ask":
        b = c.agents[op["b"]]
        if not b.alive or not hasattr(b, "ask"):
            return None
        m = c.fresh()
        kw = {}
        if op["x"] != INF:
            if op["how"] % 2:
                kw["timeout"] = U(op["x"])
            else:
                kw["expiration"] = self.now + U(op["x"])
                if op["how"] % 4 == 2:
                    kw["timeout"] = U(op["x"]) + 2
        if op["d"] != 4 or op["how"] % 3:
            kw["delay"] = U(op["d"])
        c.log("ask", a=self.unique_id, b=op["b"], q=m.n, m=m.n, d=op["d"], x=INF if op["x"] == INF else T(self.now) + op["x"])
        return b.ask(m, **kw)
    if not hasattr(self, "received"):
        return None
    kw = {}
    if op["x"] == 240 and op["how"] % 2:
        pass
    elif op["how"] % 2:
        kw["timeout"] = U(op["x"])
    else:
        kw["expiration"] = self.now + U(op["x"])
        if op["how"] % 4 == 2:
            kw["timeout"] = U(op["x"]) + 2
    if op["d"] != 4 or op["how"] % 3:
        kw["delay"] = U(op["d"])
    if k == "peek":
        kw["process"] = False
    c.log("wait", a=self.unique_id, w=k, d=op["d"], x=T(self.now) + op["x"])
    return self.received(**kw)


def over(self, op, res):
    c = self.model.ctx
    if op["k"] == "ask":
        c.log("answer", a=self.unique_id, v=value_id(res), t=T(self.now))
    else:
        c.log("msgs", a=self.unique_id, ms=[[pid(m.payload), sid(m.sender)] for m in res], t=T(self.now))


def gen_body(self):
    c = self.model.ctx
    for op in self.script:
        if op["t"] > T(self.now):
            yield U(op["t"]) - self.now
        if op["k"] == "die":
            c.log("leave", a=self.unique_id)
            return self.die()
        if simple(self, op):
            continue
        w = waiting(self, op)
        if w is None:
            continue
        try:
            res = yield from w
        except TimedOut:
            c.log("timeout", a=self.unique_id, t=T(self.now))
            continue
        except Boom:
            c.log("break", a=self.unique_id)
            continue
        over(self, op, res)
    return stime.INFINITY


async def co_body(self):
    c = self.model.ctx
    for op in self.script:
        if op["t"] > T(self.now):
            await self.delay(U(op["t"]) - self.now)
        if op["k"] == "die":
            c.log("leave", a=self.unique_id)
            return self.die()
        if simple(self, op):
            continue
        w = waiting(self, op)
        if w is None:
            continue
        try:
            res = await w
        except TimedOut:
            c.log("timeout", a=self.unique_id, t=T(self.now))
            continue
        except Boom:
            c.log("break", a=self.unique_id)
            continue
        over(self, op, res)
    return stime.INFINITY


def make_class(name, base, kind, style):
    ns = {"script": [], "group": 0}
    b = {"evt": sagents.EventedAgent, "agent": sagents.Agent, "plain": BaseAgent, "fsm": None}[base]
    if base == "fsm":
        b = type("EvFsm", (sagents.FSM, sagents.EventedAgent), {})
    body = gen_body if kind == "gen" else co_body
    if base in ("agent", "fsm"):
        def st_gen(self):
            return (yield from gen_body(self))

        async def st_co(self):
            return await co_body(self)
        ns["main"] = state("main", default=True)(st_gen if kind == "gen" else st_co)
    else:
        ns["step"] = body
    if base != "plain":
        if style:
            def on_receive(self, msg, sender=None, **kwargs):
                return received(self, msg, sender)
        else:
            def on_receive(self, msg, sender):
                return received(self, msg, sender)
        ns["on_receive"] = on_receive
    return type(name, (b,), ns)


def run(sc, log):
    kw = {}
    if sc["sched"] == "pq":
        kw["schedule_class"] = stime.PQueueActivation
    elif sc["sched"] == "ord":
        kw["schedule_class"] = stime.OrderedTimedActivation

    env = Environment(seed=str(sc["id"]), **kw)
    env.ctx = ctx = Ctx(sc, log, env)
    marks = {1: type("G1", (), {}), 2: type("G2", (), {})}
    ctx.classes = marks
    made = {}
    for a in sc["agents"]:
        key = (a["base"], a["kind"], a["style"], a["g"])
        if key not in made:
            c = make_class("Ag%d" % len(made), *key[:3])
            made[key] = type(c.__name__, (c, marks[a["g"]]), {})
        log("join", a=a["a"], g=a["g"], box=a["base"] != "plain")
        ctx.agents[a["a"]] = env.add_agent(made[key], unique_id=a["a"], script=a["script"], group=a["g"], **({"name": "twin"} if sc["id"] % 4 == 0 else {}))
    early = list(sc["env"])
    for n in range(sc["steps"]):
        for op in early:
            if op["n"] == n:
                if op["k"] == "bcast":
                    ctx.bcast(op, None)
                elif op["k"] == "tell" and ctx.agents[op["b"]].alive and hasattr(ctx.agents[op["b"]], "tell"):
                    ctx.tell(op["b"], None)
                elif op["k"] == "kill":
                    ctx.kill(op["b"])
        env.step()
        if not env.running:
            log("stop")
            break
        log("clock", t=T(env.now))


if __name__ == "__main__":
    common.main(run)
