"""Models with a Lockstepper (Lockstep.tla)."""
import common
from common import T, U, INF

soil = common.soil_module()
from soil import BaseAgent
from soil import environment as senv
from soil import time as stime

SCHEDS = {"timed": lambda m: stime.TimedActivation(m), "pq": lambda m: stime.PQueueActivation(m), "ordered": lambda m: stime.OrderedTimedActivation(m),
          "pqfix": lambda m: stime.PQueueActivation(m, shuffle=False), "shuffled": lambda m: stime.ShuffledTimedActivation(m)}
current = {}


class A(BaseAgent):
    script = None
    n = 0

    def step(self):
        log = current["log"]
        log("act", a=self.unique_id, t=T(self.now))
        acts = self.script or []
        if self.n >= len(acts):
            log("leave", a=self.unique_id)
            return self.die()
        act = acts[self.n]
        self.n += 1
        if act["add"] and current["left"]:
            script = current["left"].pop()
            new = self.model.add_agent(A, script=script)
            log("join", a=new.unique_id)
        if act["kill"]:
            others = [b for b in self.model.schedule.agents if b is not self]
            if others:
                b = others[act["kill"] % len(others)]
                b.die()
                log("leave", a=b.unique_id)
        if act["die"]:
            log("leave", a=self.unique_id)
            return self.die()
        log("ask", a=self.unique_id, d=-1 if act["d"] is None else act["d"])
        if act["d"] is None:
            return None
        if act["d"] and act["d"] != INF and act["abs"]:
            return self.at(self.now + U(act["d"]))
        return self.delay(U(act["d"])) if act["form"] else U(act["d"])


class Starter(BaseAgent):
    def step(self):
        return common.BASE if not self.now else None


def run(sc, log):
    current.clear()
    common.set_scale(sc.get("scale", 4), sc.get("start", 0))
    current.update(log=log, left=list(sc["later"]))

    class Env({"env": senv.Environment, "base": senv.BaseEnvironment}[sc["base"]]):
        if sc["default"] != common.SCALE:
            default_interval = U(sc["default"])

        def init(self):
            if not common.BASE:
                self.populate()

        def populate(self):
            for s in sc["agents"]:
                a = self.add_agent(A, script=s)
                log("join", a=a.unique_id)

    width = U(sc["cfg"]["w"])
    make = SCHEDS[sc["sched"]]
    if common.BASE:
        # The scheduler is wrapped when it has been in use for some time
        env = Env(schedule_class=make)
        starter = env.add_agent(Starter)
        while env.now < common.BASE and env.running:
            env.step()
        starter.die()
        env.schedule = stime.Lockstepper(env.schedule, interval=width)
        env.populate()
    elif sc["cfg"]["w"] == common.SCALE and sc["plain"]:
        env = Env(schedule_class=lambda model: stime.Lockstepper(make(model)))
    else:
        env = Env(schedule_class=lambda model: stime.Lockstepper(make(model), interval=width) if sc["plain"] else stime.Lockstepper(make(model), width))
    for _ in range(sc["steps"]):
        log("begin")
        if sc["direct"]:
            env.schedule.step()
        else:
            env.step()
        log("end", t=T(env.schedule.time), n=env.schedule.steps)
        log("now", t=T(env.now))


if __name__ == "__main__":
    common.main(run)
