-------------------------------- MODULE Run --------------------------------
(* The main loop of a run (soil/simulation.py, _run_model): when it performs a
   step of the model and when it stops.                                       *)
EXTENDS Kit

VARIABLES
  lim,      \* [t: max_time or None, s: max_steps or None]
  phase,    \* "new", "ready", "instep", "over"
  now, steps, running,
  acted     \* somebody has been activated in this step
vars == <<lim, phase, now, steps, running, acted>>

RInit(c) == /\ lim = c /\ phase = "new" /\ now = 0 /\ steps = 0 /\ running = TRUE /\ acted = FALSE

\* A new model is ready to be run; n is its number of agents
ReadyBad(n, t, s, r) == If(phase \notin {"new", "over"}, "run-starts-twice") \cup If(n = 0, "model-without-agents-is-run")
Ready(n, t, s, r) ==
  /\ ReadyBad(n, t, s, r) = {}
  /\ phase' = "ready" /\ now' = t /\ steps' = s /\ running' = r /\ acted' = FALSE
  /\ UNCHANGED lim

Over(t, s, r) == ~r \/ (lim.t # None /\ t >= lim.t) \/ (lim.s # None /\ s >= lim.s)

StepBad(t, s, r) ==
  If(phase # "ready", "step-outside-a-run") \cup
  If(t # now \/ s # steps, "clock-or-steps-changed-between-steps") \cup
  If(~r, "step-after-the-model-stopped") \cup
  If(lim.t # None /\ t >= lim.t, "step-at-or-after-max_time") \cup
  If(lim.s # None /\ s >= lim.s, "step-beyond-max_steps")
Step(t, s, r) ==
  /\ StepBad(t, s, r) = {}
  /\ phase' = "instep" /\ running' = r /\ acted' = FALSE
  /\ UNCHANGED <<lim, now, steps>>

ActBad(t) ==
  If(phase # "instep", "activation-outside-a-step") \cup
  If(lim.t # None /\ t >= lim.t, "activation-at-or-after-max_time")
Act(t) == ActBad(t) = {} /\ acted' = TRUE /\ UNCHANGED <<lim, phase, now, steps, running>>

EndStepBad(t, s, r) ==
  If(phase # "instep", "step-outside-a-run") \cup
  If(t < now, "clock-goes-back") \cup
  If(s \notin {steps, steps + 1}, "steps-are-miscounted") \cup
  If(acted /\ s = steps, "step-is-not-counted")
EndStep(t, s, r) ==
  /\ EndStepBad(t, s, r) = {}
  /\ phase' = "ready" /\ now' = t /\ steps' = s /\ running' = r
  /\ UNCHANGED <<lim, acted>>

\* The run returns the model
DoneBad(t, s, r) ==
  If(phase # "ready", "run-returns-in-the-middle-of-a-step") \cup
  If(t # now \/ s # steps \/ r # running, "model-changed-after-the-last-step") \cup
  If(~Over(t, s, r), "run-stops-before-its-limits")
Done(t, s, r) ==
  /\ DoneBad(t, s, r) = {} /\ phase' = "over" /\ UNCHANGED <<lim, now, steps, running, acted>>

\* The run fails because there are no agents
NoAgentsBad(n) == If(n # 0, "model-with-agents-is-refused")
-----------------------------------------------------------------------------
CONSTANTS MaxT, MaxS
MCInit == \E t \in {None} \cup (0..3), s \in {None} \cup (0..3) : RInit([t |-> t, s |-> s])
MCNext ==
  \/ phase = "new" /\ Ready(1, 0, 0, TRUE)
  \/ Step(now, steps, running)
  \/ ~acted /\ Act(now)
  \/ \E t \in (now..MaxT) \cup {Inf}, s \in {steps, steps + 1}, r \in BOOLEAN : EndStep(t, s, r)
  \/ Done(now, steps, running)
MCSpec == MCInit /\ [][MCNext]_vars
Bound == steps <= MaxS
\* C04: exactly when one of the limits has been reached
StopsOnlyAtLimits == phase = "over" => Over(now, steps, running)
NoStepBeyond == phase = "instep" => ~Over(now, steps, TRUE)
WithinSteps == lim.s # None => steps <= lim.s
CanGoOn == phase = "ready" => (ENABLED Step(now, steps, running)) # (ENABLED Done(now, steps, running))
=============================================================================
