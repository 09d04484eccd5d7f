----------------------------- MODULE MCLockstep -----------------------------
(* Agents that come and go, and any delays. *)
EXTENDS Lockstep
VARIABLES pend,     \* agent that is being activated, or None
  used      \* agents that have been in the model
CONSTANTS Agents, Widths, Delays, MaxClock

MCInit == \E w \in Widths : LInit(w, 2) /\ pend = None /\ used = {}
MCNext ==
  \/ pend = None /\ ~on /\ clock < MaxClock /\ Begin /\ UNCHANGED <<pend, used>>
  \/ pend = None /\ ~on /\ clock = 0 /\ \E a \in Agents : a \notin used /\ Join(a) /\ used' = used \cup {a} /\ UNCHANGED pend
  \/ pend = None /\ \E a \in DOMAIN due : Act(a, due[a]) /\ pend' = a /\ UNCHANGED used
  \/ pend # None /\ \E d \in Delays : Ask(pend, d) /\ pend' = None /\ UNCHANGED used
  \/ pend # None /\ \E a \in Agents : a \notin used /\ Join(a) /\ used' = used \cup {a} /\ UNCHANGED pend
  \/ pend # None /\ \E a \in DOMAIN due : Leave(a) /\ UNCHANGED used /\ pend' = IF a = pend THEN None ELSE pend
  \/ pend = None /\ End(clock + width, n + 1) /\ UNCHANGED <<pend, used>>
MCSpec == MCInit /\ [][MCNext]_<<vars, pend, used>>
MCFair == MCSpec /\ WF_<<vars, pend, used>>(pend = None /\ End(clock + width, n + 1) /\ UNCHANGED <<pend, used>>) /\ WF_<<vars, pend, used>>(pend = None /\ \E a \in DOMAIN due : Act(a, due[a]) /\ pend' = a /\ UNCHANGED used)
   /\ WF_<<vars, pend, used>>(pend # None /\ \E d \in Delays : Ask(pend, d) /\ pend' = None /\ UNCHANGED used)
\* The clock is always a number of intervals
OnGrid == clock = n * width
NotMissed == \A a \in DOMAIN due : due[a] >= clock
InTime == on => at >= clock /\ at < clock + width
\* Every step ends
Finishes == [](on => <>~on)
=============================================================================
