------------------------------ MODULE Lockstep ------------------------------
(* A scheduler that advances by fixed intervals (soil/time.py: Lockstepper) on top
   of a scheduler that jumps from event to event.                               *)
EXTENDS Kit

VARIABLES
  clock,     \* time between steps, and start of the current step
  width,     \* interval
  n,         \* steps
  on,        \* in the middle of a step
  due,       \* agent -> time of its next activation (Inf: never)
  at,        \* time of the last activation
  default    \* interval of the agents that do not give any
vars == <<clock, width, n, on, due, at, default>>

LInit(w, d) == clock = 0 /\ width = w /\ n = 0 /\ on = FALSE /\ due = <<>> /\ at = 0 /\ default = d

\* A new agent, which is due as soon as possible
Join(a) == due' = Put(due, a, IF on THEN at ELSE clock) /\ UNCHANGED <<clock, width, n, on, at, default>>
Leave(a) == due' = Drop(due, {a}) /\ UNCHANGED <<clock, width, n, on, at, default>>

BeginBad == If(on, "step-within-a-step")
Begin == BeginBad = {} /\ on' = TRUE /\ at' = clock /\ UNCHANGED <<clock, width, n, due, default>>

(* Agent a is activated, and sees that it is t *)
ActBad(a, t) ==
  If(~on, "activation-between-steps") \cup
  If(a \notin DOMAIN due, "activation-of-an-agent-that-is-gone") \cup
  If(a \in DOMAIN due /\ due[a] # t, "activation-at-another-time") \cup
  If(t < at, "activation-out-of-order") \cup
  If(~(t >= clock /\ t < clock + width), "activation-outside-the-interval") \cup
  If(a \in DOMAIN due /\ \E b \in DOMAIN due : due[b] < due[a], "activation-skipped")
\* ... and asks to be activated again in d (None: default; Inf: never)
Act(a, t) == ActBad(a, t) = {} /\ at' = t /\ UNCHANGED <<clock, width, n, on, due, default>>
Ask(a, d) == /\ a \in DOMAIN due
             /\ due' = [due EXCEPT ![a] = IF d = None \/ d = 0 THEN at + default ELSE IF d = Inf THEN Inf ELSE at + d]
             /\ UNCHANGED <<clock, width, n, on, at, default>>

EndBad(t, k) ==
  If(~on, "end-of-no-step") \cup
  If(t # clock + width, "not-one-interval") \cup
  If(k # n + 1, "not-one-step") \cup
  If(\E a \in DOMAIN due : due[a] < clock + width, "activation-missing")
End(t, k) == EndBad(t, k) = {} /\ on' = FALSE /\ clock' = t /\ n' = k /\ at' = t /\ UNCHANGED <<width, due, default>>
=============================================================================
