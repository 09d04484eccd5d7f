"""Drive the schedulers: agents of every kind follow scripts (Sched.tla)."""
import common
from common import T, U, W, INF, NONE, Abort, errname

soil = common.soil_module()
from soil import Environment, BaseAgent, FSM, state, default_state
from soil import agents as sagents
from soil import time as stime
from mesa import Agent as MesaAgent

SCHEDS = {
    "timed": lambda m: stime.TimedActivation(m),
    "timed_shuf": stime.ShuffledTimedActivation,
    "timed_ord": stime.OrderedTimedActivation,
    "timed_ord2": lambda m: stime.TimedActivation(m, shuffle=False),
    "pq": stime.PQueueActivation,
    "pq_ord": lambda m: stime.PQueueActivation(m, shuffle=False),
    "default": None,
}


class Ctx:
    pass


def zero_value(self):
    """The ways of asking for a delay of zero"""
    how = self.unique_id + 3 * self.model.ctx.count[self.unique_id]
    if isinstance(self, Mesa):
        return [0, 0.0][how % 2]
    return [0, 0.0, stime.Delay(0), self.delay(0), self.at(self.now), stime.Delay(0.0)][how % 6]


def wait_value(self, w):
    """The value that the agent uses to ask for its next activation"""
    form, d = w
    if form == "none":
        return None
    if form == "zero":
        return zero_value(self)
    if form == "inf":
        return stime.INFINITY
    if form == "Dinf":
        return stime.Delay(stime.INFINITY)
    u = U(d)
    if form == "back":
        how = self.unique_id % 4
        if isinstance(self, Mesa):
            return -u
        return [-u, stime.Delay(-u), self.delay(-u), self.at(self.now - u)][how]
    if form == "int":
        return int(u) if u == int(u) else u
    if form == "float":
        return float(u)
    if form == "Delay":
        return stime.Delay(u)
    if form == "delay":
        return self.delay(u)
    if form == "at":
        return self.at(self.now + u)
    raise AssertionError(w)


def begin(self):
    """An activation: follow the script.  Returns the entry with the wait"""
    c = self.model.ctx
    me = self.unique_id
    c.log("act", a=me, t=T(self.model.now))
    script = c.script(me)
    n = c.count.get(me, 0)
    c.count[me] = n + 1
    entry = script[n] if n < len(script) else {"ops": [], "wait": ["inf", INF]}
    for op in entry["ops"]:
        c.do(op, self)
    return entry


def finish(self, entry):
    w = entry["wait"]
    if w[0] == "back":
        # It has to be refused (see run)
        self.model.ctx.back = [self.unique_id, -w[1]]
        return
    d = {"none": 0, "zero": 0, "inf": INF, "Dinf": INF, "die": INF}.get(w[0], w[1])
    self.model.ctx.log("ret", a=self.unique_id, d=d)


def leave(self):
    """The agent dies"""
    v = self.model.ctx.do(["kill", self.unique_id, "die"], self)
    finish(self, {"wait": ["none" if v is None else "inf", 0]})
    return v


def plain_step(self):
    e = begin(self)
    if e["wait"][0] == "die":
        return leave(self)
    v = wait_value(self, e["wait"])
    finish(self, e)
    return v


def gen_step(self):
    """A generator that never ends"""
    while True:
        e = begin(self)
        if e["wait"][0] == "die":
            v = leave(self)
        else:
            v = wait_value(self, e["wait"])
            finish(self, e)
        yield v


class Root(BaseAgent):
    def step(self):
        return None


class Plain(Root):
    def step(self):
        v = plain_step(self)
        if not self.alive and self.unique_id % 2 and not self.model.ctx.back:
            # The steps of an agent that has just died are refused
            return super().step()
        return v


class Gen(BaseAgent):
    step = gen_step


class GenEnd(BaseAgent):
    """A generator that ends now and then"""
    def step(self):
        for i in range(3):
            e = begin(self)
            if e["wait"][0] == "die":
                v = leave(self)
            else:
                v = wait_value(self, e["wait"])
                finish(self, e)
            if i == 2:
                return v
            yield v


class Async(BaseAgent):
    async def step(self):
        while True:
            e = begin(self)
            w = e["wait"]
            if w[0] == "die":
                return leave(self)
            elif w[0] in ("none", "zero", "inf"):
                v = wait_value(self, w)
                finish(self, e)
                if isinstance(v, stime.Delay):
                    await v
                    continue
                return v
            elif w[0] in ("delay", "at", "Delay", "Dinf"):
                v = wait_value(self, w)
            elif w[0] == "back":
                v = self.at(self.now - U(w[1]))
            else:
                v = self.delay(U(w[1]))
            finish(self, e)
            await v


def one(self):
    return self.body(self.two, "two")


def two(self):
    return self.body(self.one, "one")


def fsm_body(self, other, oid):
    e = begin(self)
    w = e["wait"]
    if w[0] == "die":
        return leave(self)
    # Several ways of asking for the same delay
    how = (self.unique_id + self.model.ctx.count[self.unique_id]) % 5
    if w[0] == "none" and how in (0, 1):
        v = other if how else oid
    elif w[0] == "zero" and how in (0, 1, 2):
        v = [other.delay(), other.delay(0), other.at(self.now)][how]
    elif w[0] == "zero" and how == 3:
        v = (oid, zero_value(self))
    elif w[0] == "delay" and how in (0, 1, 2):
        v = other.delay(U(w[1]))
    elif w[0] == "at" and how in (0, 1, 2):
        v = other.at(self.now + U(w[1]))
    elif w[0] not in ("none", "zero") and how == 3:
        v = (oid, wait_value(self, w))
    elif w[0] not in ("none", "zero") and how == 4:
        v = (other, wait_value(self, w))
    else:
        v = wait_value(self, w)
    finish(self, e)
    return v


class Fsm(FSM):
    one = default_state(state(one))
    two = state(two)
    body = fsm_body


class FsmGen(FSM):
    @default_state
    @state
    def one(self):
        e = begin(self)
        if e["wait"][0] == "die":
            return leave(self)
        v = wait_value(self, e["wait"])
        finish(self, e)
        yield v
        e = begin(self)
        if e["wait"][0] == "die":
            return leave(self)
        v = wait_value(self, e["wait"])
        finish(self, e)
        if v is None:
            return self.two
        return self.two, v

    @state
    async def two(self):
        e = begin(self)
        w = e["wait"]
        if w[0] == "die":
            return leave(self)
        if w[0] in ("none", "zero", "inf"):
            v = wait_value(self, w)
            finish(self, e)
            if not isinstance(v, stime.Delay):
                return v
            await v
        elif w[0] == "back":
            finish(self, e)
            await self.at(self.now - U(w[1]))
        else:
            finish(self, e)
            await self.delay(U(w[1]) if w[1] != INF else stime.INFINITY)
        e = begin(self)
        if e["wait"][0] == "die":
            return leave(self)
        v = wait_value(self, e["wait"])
        finish(self, e)
        if v is None:
            return self.one
        return self.one, v


class Net(sagents.NetworkAgent):
    step = plain_step


class NetFsm(sagents.Agent):
    """The default class of agent: network + states + events"""
    one = state(default=True)(one)
    two = state(two)
    body = fsm_body


class Evt(sagents.EventedAgent):
    step = gen_step


class Mesa(MesaAgent):
    """A plain mesa agent"""
    def step(self):
        e = begin(self)
        if e["wait"][0] == "die":
            self.model.ctx.do(["kill", self.unique_id, "remove"], self)
            finish(self, {"wait": ["none", 0]})
            return None
        v = wait_value(self, e["wait"])
        finish(self, e)
        return v

    @property
    def now(self):
        return self.model.now


KINDS = {"plain": Plain, "gen": Gen, "genend": GenEnd, "async": Async, "fsm": Fsm, "fsmgen": FsmGen,
         "net": Net, "netfsm": NetFsm, "evt": Evt, "mesa": Mesa}


class Starter(BaseAgent):
    def step(self):
        return self.delay(common.BASE) if not self.now else None


class Env(Environment):
    def init(self):
        pass


def observe(env, c, log, died):
    """Everything that could still reach a dead agent"""
    soils = [a for a in c.agents.values() if not isinstance(a, Mesa)]
    live = [a for a in soils if a.unique_id not in c.gone]
    log("seen", ids=[a.unique_id for a in env.get_agents()], by="get_agents")
    log("seen", ids=[a.unique_id for a in env.network_agents if a.unique_id in died or a.unique_id not in c.gone], by="network_agents")
    log("seen", ids=[a.unique_id for a in env.schedule.agents], by="schedule")
    log("seen", ids=[d for d in c.gone if env.get_agents(d)], by="id")
    log("seen", ids=[d for d in c.gone if d in env.get_agents], by="view")
    for a in live[:2]:
        log("seen", ids=[x.unique_id for x in a.get_agents()], by="agent")
        if isinstance(a, sagents.NetworkAgent):
            log("seen", ids=[x.unique_id for x in a.get_neighbors()], by="neighbors")
            log("seen", ids=[x["agent"].unique_id for (_, x) in a.subgraph(agent_class=sagents.NetworkAgent).nodes(data=True)], by="subgraph")
    env.broadcast("news")
    for a in soils:
        if isinstance(a, sagents.EventedAgent):
            if a.process_messages():
                log("seen", ids=[a.unique_id], by="broadcast")
    for a in live:
        log("life", a=a.unique_id, r=bool(a.alive))
    for d in died:
        log("life", a=d, r=bool(c.agents[d].alive))
        if "dead%s" % d in c.count and c.count["dead%s" % d] > 4:
            continue
        c.count["dead%s" % d] = c.count.get("dead%s" % d, 0) + 1
        # Dying again has no effect
        c.agents[d].die()
        log("again", a=d)
        log("life", a=d, r=bool(c.agents[d].alive))
        for _ in range(2):
            raised = False
            try:
                c.agents[d].step()
            except stime.DeadAgent:
                raised = True
            log("dead", a=d, r=raised)


def run(sc, log):
    c = Ctx()
    c.log = log
    c.count = {}
    c.back = None
    c.agents = {}
    c.gone = []
    died = []
    base = sc.get("base", 0)
    common.set_scale(sc.get("scale", 4), base)
    spec = {a["a"]: a for a in sc["agents"]}
    c.script = lambda me: spec[me]["script"]
    kw = {}
    if sc.get("net"):
        import networkx as nx
        kw["topology"] = nx.complete_graph(len(spec))
    if SCHEDS[sc["sched"]] is not None:
        kw["schedule_class"] = SCHEDS[sc["sched"]]
    if sc["cfg"]["dflt"] != common.SCALE or sc["id"] % 2:
        if sc["id"] % 3 == 0:
            cls = type("Env2", (Env,), {"default_interval": U(sc["cfg"]["dflt"])})
        else:
            cls = Env
            kw["default_interval"] = U(sc["cfg"]["dflt"])
    else:
        cls = Env
    env = cls(seed=str(sc["seed"]), **kw)
    env.ctx = c
    if base:
        # The scenario starts later on
        starter = env.add_agent(Starter, unique_id=99999)
        env.step()
        while env.now < base and env.running:
            env.step()
        starter.die()

    def add(a, w):
        cls = KINDS[spec[a]["kind"]]
        if w == NONE:
            log("add", a=a, w=w)
            ag = env.add_agent(cls, unique_id=a)
        else:
            ag = cls(unique_id=a, model=env)
            log("add", a=a, w=w)
            env.schedule.add(ag, when=W(w))
        c.agents[a] = ag

    def do(op, who):
        kind, a, how = op
        if kind == "add":
            if a not in c.agents:
                w = how if how == NONE else T(env.now) + how
                add(a, w)
        elif kind == "again":
            # An agent that is already in the schedule is not added again
            if a not in c.agents or a in c.gone or T(env.now) >= INF:
                return
            w = how if how == NONE else T(env.now) + how
            try:
                if w == NONE:
                    env.schedule.add(c.agents[a])
                else:
                    env.schedule.add(c.agents[a], when=W(w))
            except ValueError:
                return
            log("add", a=a, w=w)
        elif kind == "past":
            w = T(env.now) - how
            if a in c.agents or w < 0 or how <= 0 or T(env.now) >= INF:
                return
            ag = Plain(unique_id=a, model=env)
            c.agents[a] = ag
            c.gone.append(a)
            try:
                env.schedule.add(ag, when=W(w))
            except ValueError:
                log("past", a=a, w=w)
                return
            log("add", a=a, w=w)
        elif kind == "kill":
            if a not in c.agents or a in c.gone:
                return
            c.gone.append(a)
            log("kill", a=a)
            ag = c.agents[a]
            if how != "remove" and not isinstance(ag, Mesa):
                died.append(a)
            if how == "remove" or isinstance(ag, Mesa):
                return env.schedule.remove(ag)
            if how == "both":
                # Removed from the schedule first
                env.schedule.remove(ag)
            if how == "node" and isinstance(ag, sagents.NetworkAgent):
                # It leaves the network first
                ag.remove_node()
                return ag.die(remove=False)
            if how == "stay" and isinstance(ag, sagents.NetworkAgent):
                # It dies, but its node is still in the network
                return ag.die(remove=False)
            return ag.die()

    c.do = do

    for (a, w) in sc["init"]:
        add(a, w)
    outside = {o["n"]: o["ops"] for o in sc.get("outside", [])}
    for n in range(sc["steps"]):
        for op in outside.get(n, []):
            do(op, None)
        if not env.running or not len(env.schedule.agents):
            break
        log("begin", t=T(env.now))
        try:
            env.step()
        except ValueError:
            if not c.back:
                raise
            log("refused", a=c.back[0], d=c.back[1])
            break
        if c.back:
            log("ret", a=c.back[0], d=c.back[1])
        log("end", t=T(env.now), r=bool(env.running))
        if sc.get("observe") and n % (sc["observe"] if len(sc["agents"]) < 200 else 150) == 0:
            observe(env, c, log, died)
        if not env.running:
            # Nothing else happens
            for _ in range(2):
                log("begin", t=T(env.now))
                env.step()
                log("end", t=T(env.now), r=bool(env.running))
            if sc.get("observe"):
                # Agents may still be removed
                for a in list(c.agents)[:2]:
                    c.do(["kill", a, "die"], None)
                observe(env, c, log, died)
            break


if __name__ == "__main__":
    common.main(run)
