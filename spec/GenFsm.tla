------------------------------- MODULE GenFsm -------------------------------
(* Behaviours of Fsm, printed as JSON, for harness/drv_fsm.py.                *)
EXTENDS Fsm, Json
VARIABLES hist, done
gvars == <<vars, hist, done>>
CONSTANT Depth
Rec(e) == hist' = Append(hist, e) /\ UNCHANGED done
E0 == [k |-> "", a |-> 0, s |-> "", d |-> 0]
Full == Len(hist) >= Depth \/ (DOMAIN st = Agents /\ busy = None /\ \A a \in Agents : wake[a] > MaxT)
GMake == \E a \in Agents \ DOMAIN st, s \in Names : Make(a, s, 0) /\ Rec([E0 EXCEPT !.k = "make", !.a = a, !.s = s])
GRun == MCRunS /\ UNCHANGED <<hist, done>>
GAsk == \E s \in Names \cup {""}, d \in Delays : busy # None /\ AskFor(busy, s, d) /\ Rec([k |-> "ask", a |-> busy, s |-> s, d |-> d])
GYield == \E d \in Delays \ {Inf} : busy # None /\ Yield(busy, d) /\ Rec([k |-> "yield", a |-> busy, s |-> "", d |-> d])
GPrint == ~done /\ PrintT("SCEN " \o ToJson(hist)) /\ done' = TRUE /\ UNCHANGED <<vars, hist>>
GNext == IF Full THEN GPrint ELSE GMake \/ GRun \/ GAsk \/ GYield
GSpec == MCInit /\ hist = <<>> /\ done = FALSE /\ [][GNext]_gvars
=============================================================================
