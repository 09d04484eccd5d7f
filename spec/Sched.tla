------------------------------- MODULE Sched -------------------------------
(* The discrete-event scheduler of soil (soil/time.py), with the part of the
   life of an agent that concerns it (soil/agents/__init__.py): being added,
   activated, asking for its next activation, dying and being removed.

   One action per observable step of the implementation:
     Add / AddPast   an agent is put on the schedule (from outside, or by an
                     agent during its own activation)
     StepBegin       the environment is asked to advance one step
     Act, Ret        an agent is activated, and finishes its activation with a
                     request for the next one
     Kill            an agent dies (by itself or because of another one), or is
                     removed from the schedule
     StepEnd         the step finishes, and the clock has a new value

   It is the specification of every scheduler: TimedActivation (shuffled or
   ordered) and PQueueActivation (shuffled or ordered by id), since what
   they promise is the same, but for the order at the same instant (cfg.order).
*)
EXTENDS Kit

VARIABLES
  cfg,      \* [dflt: default interval, order: "free" | "fifo" | "uid"]
  now,      \* the clock
  running,  \* the model still has something to do
  alive,    \* agents in the schedule
  gone,     \* agents that died or were removed
  wake,     \* agent -> time of its pending activation
  stamp,    \* agent -> when the pending activation was requested (order)
  clk,      \* source of stamps
  stale,    \* times of the pending activations of agents that are gone
  cur,      \* stack of agents being activated (<<>> or <<a>>)
  due,      \* agents that have to act in this step
  instep

vars == <<cfg, now, running, alive, gone, wake, stamp, clk, stale, cur, due, instep>>

Sleepers == {a \in alive : a \notin DOMAIN wake /\ cur # <<a>>}

SInit(c) ==
  /\ cfg = c
  /\ now = 0 /\ running = TRUE
  /\ alive = {} /\ gone = {}
  /\ wake = <<>> /\ stamp = <<>> /\ clk = 0
  /\ stale = {} /\ cur = <<>> /\ due = {} /\ instep = FALSE

-----------------------------------------------------------------------------
\* w is None when no time is requested: as soon as possible
AddBad(a, w) ==
  If(a \in alive \cup gone, "agent-added-twice") \cup
  If(w # None /\ w < now, "activation-accepted-in-the-past")

Add(a, w) ==
  /\ AddBad(a, w) = {}
  /\ alive' = alive \cup {a}
  /\ IF w = Inf THEN UNCHANGED <<wake, stamp>>
     ELSE /\ wake' = Put(wake, a, IF w = None THEN now ELSE w)
          /\ stamp' = Put(stamp, a, clk)
  /\ clk' = clk + 1
  /\ UNCHANGED <<cfg, now, running, gone, stale, cur, due, instep>>

\* Requests for the past are refused, with an error
AddPastBad(a, w) == If(w = None \/ w >= now, "valid-activation-refused")

AddPast(a, w) ==
  /\ AddPastBad(a, w) = {}
  /\ UNCHANGED vars

-----------------------------------------------------------------------------
StepBeginBad(t) ==
  If(t # now, "clock-changed-outside-a-step") \cup
  If(instep, "nested-step")

StepBegin(t) ==
  /\ StepBeginBad(t) = {}
  /\ instep' = TRUE
  /\ due' = {a \in alive \cap DOMAIN wake : wake[a] <= now}
  /\ UNCHANGED <<cfg, now, running, alive, gone, wake, stamp, clk, stale, cur>>

-----------------------------------------------------------------------------
Ready == {a \in alive \cap DOMAIN wake : wake[a] <= now}

FirstBad(a) ==
  CASE cfg.order = "fifo" -> If(\E b \in Ready : stamp[b] < stamp[a], "activation-out-of-order")
    [] cfg.order = "uid"  -> If(\E b \in Ready : b < a, "activation-out-of-order")
    [] OTHER -> {}

ActBad(a, t) ==
  IF a \in gone THEN {"agent-acts-after-death-or-removal"}
  ELSE IF a \notin alive THEN {"unknown-agent-acts"}
  ELSE IF ~instep THEN {"activation-outside-a-step"}
  ELSE IF cur # <<>> THEN {"nested-activation"}
  ELSE IF t # now THEN {"agent-sees-wrong-time"}
  ELSE IF a \notin DOMAIN wake THEN {"activation-not-requested"}
  ELSE IF wake[a] > t THEN {"activation-too-early"}
  ELSE IF wake[a] < t THEN {"activation-too-late"}
  ELSE FirstBad(a)

Act(a, t) ==
  /\ ActBad(a, t) = {}
  /\ cur' = <<a>>
  /\ wake' = Drop(wake, {a}) /\ stamp' = Drop(stamp, {a})
  /\ due' = due \ {a}
  /\ UNCHANGED <<cfg, now, running, alive, gone, clk, stale, instep>>

\* d is the delay that the agent asks for: zero stands for no delay (the
\* default interval is used) and Inf for not being activated again
RetBad(a, d) ==
  If(cur # <<a>>, "unknown-agent-acts") \cup
  If(d < 0, "activation-accepted-in-the-past")

Ret(a, d) ==
  /\ RetBad(a, d) = {}
  /\ cur' = <<>>
  /\ clk' = clk + 1
  /\ LET w == now + (IF d = 0 THEN cfg.dflt ELSE d) IN
     IF d = Inf THEN UNCHANGED <<wake, stamp, stale>>
     ELSE IF a \notin alive
     THEN \* nobody will be activated then, but the clock may still stop there
          stale' = stale \cup {w} /\ UNCHANGED <<wake, stamp>>
     ELSE /\ wake' = Put(wake, a, w)
          /\ stamp' = Put(stamp, a, clk)
          /\ UNCHANGED stale
  /\ UNCHANGED <<cfg, now, running, alive, gone, due, instep>>

\* A request for the past is refused with an error, which ends the run
RefusedBad(a, d) ==
  If(cur # <<a>>, "unknown-agent-acts") \cup
  If(d >= 0, "valid-activation-refused")

-----------------------------------------------------------------------------
KillBad(b) == If(b \notin alive \cup gone, "unknown-agent-dies")

Kill(b) ==
  /\ KillBad(b) = {}
  /\ alive' = alive \ {b} /\ gone' = gone \cup {b}
  /\ stale' = stale \cup (IF b \in DOMAIN wake THEN {wake[b]} ELSE {})
  /\ wake' = Drop(wake, {b}) /\ stamp' = Drop(stamp, {b})
  /\ due' = due \ {b}
  /\ UNCHANGED <<cfg, now, running, clk, cur, instep>>

-----------------------------------------------------------------------------
Pending == {wake[a] : a \in alive \cap DOMAIN wake}

\* Where the clock may be after this step: at the earliest pending activation.
\* (It may also stop at the time an agent that is gone was waiting for.)
Targets ==
  IF Pending = {} THEN stale \cup {now, Inf}
  ELSE {SetMin(Pending)} \cup {x \in stale : x <= SetMin(Pending)}

StepEndBad(t, run) ==
  If(~instep \/ cur # <<>>, "step-ends-in-the-middle-of-an-activation") \cup
  If(due # {}, "agent-due-was-not-activated") \cup
  If(t < now, "clock-goes-back") \cup
  If(Pending # {} /\ t > SetMin(Pending), "clock-skips-a-pending-activation") \cup
  If(t >= now /\ (Pending # {} => t <= SetMin(Pending)) /\ t \notin Targets,
     "clock-stops-where-nothing-is-pending") \cup
  If(~run /\ Pending # {}, "model-stops-with-pending-activations") \cup
  If(run /\ Pending = {} /\ (stale = {} \/ t = Inf), "model-does-not-stop-when-nothing-is-pending")

StepEnd(t, run) ==
  /\ StepEndBad(t, run) = {}
  /\ instep' = FALSE
  /\ now' = t
  /\ running' = run
  /\ stale' = {x \in stale : x > t}
  /\ UNCHANGED <<cfg, alive, gone, wake, stamp, clk, cur, due>>

-----------------------------------------------------------------------------
(* Observations that do not change the state *)

\* The agents in `ids` were returned by a query, or were sent a message
SeenBad(ids) == If(\E i \in DOMAIN ids : ids[i] \in gone, "dead-agent-is-visible")

\* The step method of a dead agent is called by hand: it must raise DeadAgent
DeadStepBad(a, raised) ==
  IF a \notin gone THEN {"unknown-agent-acts"}
  ELSE If(~raised, "dead-agent-accepts-a-step")

\* A dead agent dies again: nothing happens
AgainBad(a) == If(a \notin gone, "unknown-agent-dies")

\* The value of the "alive" attribute
LifeBad(a, v) == If(v # (a \in alive), "alive-flag-is-wrong")
=============================================================================
