"""Chains of FSM classes (FsmClass.tla)."""
import common

soil = common.soil_module()
from soil import BaseAgent, Environment, FSM
from soil import agents as sagents
from soil.agents.fsm import state, default_state


def body_for(name, level, style, default):
    def body(self):
        nxt = self.model.next_state(self)
        self.model.ran_ += 1
        self.model.log_("ran", a=self.unique_id, s=name, v=level, n=nxt)
        return [nxt, getattr(self, nxt)][self.model.flip()]

    body.__name__ = name
    if style == 0:
        st = state(body)
        return default_state(st) if default else st
    if style in (1, 4):
        return state(default=default)(body)
    body.__name__ = "f"
    return state(name, default=default)(body)


class Ticker(BaseAgent):
    def step(self):
        return 0.25


def run(sc, log):
    count = [0]
    names = {}

    class Env(Environment):
        def flip(self):
            count[0] += 1
            return count[0] % 2

        def next_state(self, agent):
            ns = names[agent.unique_id]
            count[0] += 1
            return ns[(count[0] * 7 + sc["id"]) % len(ns)]

    env = Env(seed="x")
    env.log_ = log
    chain = sc["cfg"]["chain"]
    base = [FSM, sagents.Agent][sc["base"]]
    classes = []
    for (c, body) in enumerate(chain, 1):
        # (states need not be in attributes with their names)
        ns = {("f_" if sc["style"] > 2 else "") + s["name"]: body_for(s["name"], c, sc["style"], s["default"]) for s in body}
        base = type(f"Level{c}", (base,), ns)
        classes.append(base)
    if sc["sibling"]:
        # Other subclasses must not change anything
        ids = sorted({s["name"] for b in chain for s in b}) or ["a"]
        for k in classes:
            type("Sibling", (k,), {n: body_for(n, 99, sc["style"], n == ids[-1]) for n in ids})
    uid = 0
    made = []
    for (c, cls) in enumerate(classes, 1):
        log("states", c=c, ss=list(cls.states()))
        every = sorted({s["name"] for b in chain[:c] for s in b})
        # Those of the subclasses are not states of this class
        deeper = sorted({s["name"] for b in chain for s in b} - set(every))
        wrong = ["nope", "(empty)", "(zero)", "Dead", "(false)"]
        for sid in [""] + every + ["dead"] + deeper + wrong:
            uid += 1
            names[uid] = every or ["dead"]
            kw = {"state_id": {"(empty)": "", "(zero)": 0, "(false)": False}.get(sid, sid)} if sid else {}
            try:
                ag = env.add_agent(cls, unique_id=uid, **kw)
            except ValueError:
                log("make", a=uid, c=c, sid=sid, res="ValueError", s="")
                continue
            try:
                cur = ag.state_id or ""
            except AttributeError:
                # Only "dead", and no default
                cur = ""
            log("make", a=uid, c=c, sid=sid, res="ok", s=cur)
            if cur in every:
                made.append(ag)
    # States set by hand, at the beginning and later on
    late = Env(seed="y")
    late.log_ = log
    if sc["id"] % 2:
        late.add_agent(Ticker, unique_id=0)
    else:
        # Nothing has happened yet, but it is not time zero
        late.schedule.add(Ticker(unique_id=0, model=late), when=2)
    late.step()
    t = common.T(late.now)
    for (c, cls) in enumerate(classes, 1):
        every = sorted({s["name"] for b in chain[:c] for s in b})
        deeper = sorted({s["name"] for b in chain for s in b} - set(every))
        if not every:
            continue
        for (e, time) in ((env, 0), (late, t)):
            uid += 1
            names[uid] = every
            ag = e.add_agent(cls, unique_id=uid, state_id=every[0])
            log("make", a=uid, c=c, sid=every[0], res="ok", s=ag.state_id)
            for s in [every[-1], "nope", "dead"] + deeper + every:
                res = "ok"
                try:
                    ag.set_state(s if s == "dead" or s not in every or time or uid % 2 else getattr(ag, s))
                except ValueError:
                    res = "ValueError"
                log("set", a=uid, t=time, s=s, res=res)
                log("id", a=uid, s=ag.state_id)
            made.append(ag)
    for _ in range(4):
        for ag in made:
            env.ran_ = late.ran_ = 0
            s = ag.state_id
            ag.step()
            log("acted", a=ag.unique_id, s=s, times=env.ran_ + late.ran_)
            log("id", a=ag.unique_id, s=ag.state_id)


if __name__ == "__main__":
    common.main(run)
