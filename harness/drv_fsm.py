"""FSM agents that follow scripts of transitions (Fsm.tla)."""
import common
from common import T, U, INF

soil = common.soil_module()
from soil import Environment, FSM
from soil import agents as sagents
from soil.agents.fsm import state, default_state
from soil import time as stime


def nxt(self):
    c = self.model.ctx
    s = c["scripts"][self.unique_id]
    n = c["n"].get(self.unique_id, 0)
    c["n"][self.unique_id] = n + 1
    return s[n] if n < len(s) else {"y": 0, "s": "", "d": INF, "form": "num"}


def delay_value(self, d, form):
    if d == 0:
        return {"Delay": stime.Delay(0), "delay": self.delay(0), "at": self.at(self.now), "int": 0}.get(form)
    u = U(d)
    if form == "Delay":
        return stime.Delay(u)
    if form == "delay":
        return self.delay(u)
    if form == "at" and d != INF:
        return self.at(self.now + u)
    if form == "int" and d != INF and u == int(u):
        return int(u)
    return u


def result(self, act):
    """The value that the state returns, in one of its possible forms"""
    s, d, form = act["s"], act["d"], act["form"]
    if form == "die":
        return self.die()
    sub = act.get("sub", "num")
    if s == "":
        if d == 0:
            return {"pair": (None, delay_value(self, 0, sub)), "self": getattr(self, self.state_id), "selfid": self.state_id,
                    "selfdelay": getattr(self, self.state_id).delay()}.get(form, delay_value(self, 0, sub))
        if form == "pair":
            return None, delay_value(self, d, sub)
        if form == "selfdelay":
            return getattr(self, self.state_id).delay(U(d))
        return delay_value(self, d, sub)
    # (states can be kept since the agent was created)
    target = self._kept[s] if act.get("kept") else getattr(self, s)
    if form == "class":
        target = getattr(type(self), s)
    elif form == "other":
        # The same state, of another agent of the class
        target = getattr(self.model.ctx["agents"][act["sub"] == "num"], s)
    if form in ("class", "other"):
        return target if d == 0 else (target, delay_value(self, d, sub))
    if d == 0:
        return {"obj": target, "id": s, "pair": (target, delay_value(self, 0, sub)), "idpair": (s, delay_value(self, 0, sub)),
                "list": [s, delay_value(self, 0, sub)], "delay": target.delay(), "at": target.at(self.now)}.get(form, target)
    v = delay_value(self, d, sub)
    if form == "obj" or form == "pair":
        return target, v
    if form == "list":
        return [target, v]
    if form == "at":
        return target.at(self.now + U(d)) if d != INF else target.at(stime.INFINITY)
    if form == "delay":
        return target.delay(U(d))
    return s, v


def enter(self, name):
    c = self.model.ctx
    if c["direct"] is None:
        c["log"]("run", a=self.unique_id, s=name, i=self.state_id, t=T(self.now))
    else:
        c["direct"].append(name)


def tell(self, k, **kw):
    c = self.model.ctx
    if c["direct"] is None:
        c["log"](k, a=self.unique_id, **kw)


def make_state(name, kind, default, style):
    if kind == "func":
        def body(self):
            enter(self, name)
            act = nxt(self)
            if act.get("set") and self.now == 0:
                # The state is set by hand
                self.set_state(act["set"])
                self.model.ctx["log"]("force", a=self.unique_id, s=act["set"])
            if act["y"]:
                act = dict(act, s="", form="num")
            v = result(self, act)
            tell(self, "ask", s=act["s"], d=act["d"])
            return v
    elif kind == "gen":
        def body(self):
            while True:
                enter(self, name)
                act = nxt(self)
                if act["y"]:
                    tell(self, "yield", d=act["d"])
                    yield delay_value(self, act["d"], act.get("sub", "num"))
                    continue
                v = result(self, act)
                tell(self, "ask", s=act["s"], d=act["d"])
                return v
    else:
        async def body(self):
            while True:
                enter(self, name)
                act = nxt(self)
                if act["y"]:
                    tell(self, "yield", d=act["d"])
                    await self.delay(U(act["d"]))
                    continue
                v = result(self, act)
                tell(self, "ask", s=act["s"], d=act["d"])
                return v
    body.__name__ = name
    if style == 0:
        st = state(body)
        return default_state(st) if default else st
    if style in (1, 4):
        return state(default=default)(body)
    body.__name__ = "whatever"
    return state(name, default=default)(body)


def run(sc, log):
    class Env(Environment):
        pass

    kw = {}
    if sc["sched"] == "pq":
        kw["schedule_class"] = stime.PQueueActivation
    env = Env(seed=str(sc["id"]), default_interval=U(sc["cfg"]["dflt"]), **kw)
    base = sagents.Agent if sc["base"] == "agent" else FSM
    # (states need not be in attributes with their names)
    ns = {("f_" if s["style"] > 2 else "") + s["name"]: make_state(s["name"], s["kind"], s["name"] == sc["default"], s["style"]) for s in sc["states"]}
    def init(self):
        self._kept = {s: getattr(self, s) for s in sc["cfg"]["states"]}

    cls = type("Machine", (base,), dict(ns, init=init))
    twin = None
    if sc.get("twin"):
        # Another model, at another time, with agents of the same class
        twin = Env(seed="twin")
        twin.add_agent(cls)
    env.ctx = {"scripts": {a["a"]: a["script"] for a in sc["agents"]}, "n": {}, "log": log, "direct": None}
    agents = {}
    for a in sc["agents"]:
        k = {}
        if a["init"] != sc["default"]:
            k["state_id"] = a["init"]
        log("make", a=a["a"], s=a["init"], t=0)
        agents[a["a"]] = env.add_agent(cls, unique_id=a["a"], **k)
        log("id", a=a["a"], s=agents[a["a"]].state_id)
    env.ctx["agents"] = [agents[sc["agents"][0]["a"]], agents[sc["agents"][-1]["a"]]]
    if sc["direct"]:
        env.ctx["direct"] = []
        for _ in range(12):
            for a in sc["agents"]:
                ag = agents[a["a"]]
                n = env.ctx["n"].get(a["a"], 0)
                if n >= len(a["script"]) or ag.state_id == "dead":
                    continue
                act = dict(a["script"][n])
                if act.get("bad"):
                    before = ag.state_id
                    raised = False
                    env.ctx["scripts"][a["a"]] = list(a["script"])
                    try:
                        ag.step()
                    except ValueError:
                        raised = True
                    log("wrong", a=a["a"], r=raised, s=ag.state_id)
                    continue
                d = ag.step()
                log("direct", a=a["a"], s="" if act["y"] else act["s"], d=act["d"], rs=ag.state_id, rd=0 if d is None else T(d))
        return
    for _ in range(sc["steps"]):
        env.step()
        for a in agents:
            log("id", a=a, s=agents[a].state_id)
        log("clock", t=T(env.now))
        if not env.running:
            break


_result = result


def result(self, act):
    if act.get("bad") == 1:
        return "no such state"
    if act.get("bad") == 2:
        return "no such state", 1
    if act.get("bad") == 3:
        return ""
    if act.get("bad") == 4:
        return ["", 1]
    if act.get("bad") == 5:
        return self.state_id + " "
    if act.get("bad") == 6:
        return "set_state"
    if act.get("bad", 0) >= 7:
        return ["3", "inf", "0.5", "1"][act["bad"] - 7]
    return _result(self, act)


if __name__ == "__main__":
    common.main(run)
