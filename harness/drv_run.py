"""Runs of simulations with limits (Run.tla)."""
import common
from common import T, U, INF, NONE

soil = common.soil_module()
from soil import Environment, BaseAgent, Simulation
from soil import time as stime


class A(BaseAgent):
    n = 0
    script = None

    def step(self):
        self.model.log_("act", t=T(self.now))
        s = self.script
        if self.n >= len(s):
            return stime.INFINITY
        w = s[self.n]
        self.n += 1
        if w == "stop":
            self.model.running = False
            return None
        if w == "die":
            return self.die()
        return U(w) if w else None


def run(sc, log):
    sched = {"timed": stime.TimedActivation, "pq": stime.PQueueActivation, "ord": stime.OrderedTimedActivation}[sc["sched"]]

    class Env(Environment):
        schedule_class = sched

        def init(self):
            self.log_ = log
            for a in sc["agents"]:
                if a["t"] == NONE:
                    self.add_agent(A, script=a["script"])
                else:
                    self.schedule.add(A(unique_id=self.next_id(), model=self, script=a["script"]), when=U(a["t"]))
            if sc.get("stopped"):
                self.running = False
            if sc["agents"]:
                log("ready", n=len(sc["agents"]), t=T(self.now), s=int(self.schedule.steps), r=bool(self.running))

        def step(self):
            log("step", t=T(self.now), s=int(self.schedule.steps), r=bool(self.running))
            super().step()
            log("ended", t=T(self.now), s=int(self.schedule.steps), r=bool(self.running))

    t, s = sc["cfg"]["t"], sc["cfg"]["s"]
    lim = {}
    if t != NONE:
        lim["max_time"] = U(t)
        if t != INF and U(t) == int(U(t)) and sc["id"] % 2:
            lim["max_time"] = int(U(t))
    if s != NONE:
        lim["max_steps"] = s
    common_kw = dict(exporters=[], dump=False)

    class Watch:
        """Exporter that is told about each result"""
        def __init__(self, simulation, **kw):
            pass

        def sim_start(self):
            pass

        def sim_end(self):
            pass

        def iteration_end(self, env, params, params_id):
            log("done", t=T(env.now), s=int(env.schedule.steps), r=bool(env.running))

    common_kw["exporters"] = [Watch]
    how = sc["how"]
    try:
        if how == "sim":
            Simulation(model=Env, iterations=sc["iters"], **lim, **common_kw).run()
        elif how == "replace":
            Simulation(model=Env, max_time=1, max_steps=1, iterations=sc["iters"], **common_kw).run(
                max_time=lim.get("max_time"), max_steps=lim.get("max_steps"))
        elif how == "env":
            Env.run(iterations=sc["iters"], **lim, **common_kw)
        else:
            soil.run(Env, iterations=sc["iters"], **lim, **common_kw)
    except Exception as ex:
        if sc["agents"] or type(ex) is not Exception:
            raise
        log("noagents", n=len(sc["agents"]))


if __name__ == "__main__":
    common.main(run)
