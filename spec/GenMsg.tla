------------------------------- MODULE GenMsg -------------------------------
(* Behaviours of Msg, printed as JSON: what each agent does at each instant,
   for harness/drv_msg.py.                                                    *)
EXTENDS Msg, Json
VARIABLES hist, done
gvars == <<vars, hist, done>>
CONSTANT Depth
Rec(e) == hist' = Append(hist, e) /\ UNCHANGED done
E0 == [k |-> "", a |-> 0, b |-> 0, g |-> 0, x |-> 0, d |-> 0]
Full == Len(hist) >= Depth \/ now >= MaxT
Silent == UNCHANGED <<hist, done>>
GTick == MCTick /\ Rec([E0 EXCEPT !.k = "tick"])
GTell == cnt < MaxMsgs /\ \E a, b \in DOMAIN pop : Tell(b, cnt + 1, a) /\ Rec([E0 EXCEPT !.k = "tell", !.a = a, !.b = b])
GBcast == cnt < MaxMsgs /\ \E a \in DOMAIN pop, g \in Groups \cup {None}, e \in Exps :
             Broadcast(cnt + 1, a, g, IF e = Inf THEN Inf ELSE now + e) /\ Rec([E0 EXCEPT !.k = "bcast", !.a = a, !.g = g, !.x = e])
GAsk == cnt < MaxMsgs /\ \E a, b \in DOMAIN pop, dl \in {1, 2, 3, Inf} : a # b /\ Free(a)
             /\ Ask(a, b, cnt + 1, cnt + 1, None, 1, IF dl = Inf THEN Inf ELSE now + dl) /\ Rec([E0 EXCEPT !.k = "ask", !.a = a, !.b = b, !.x = dl, !.d = 1])
GWait == \E a \in DOMAIN pop, d \in 1..2, dl \in {1, 2, 3, 4} : Free(a) /\ Wait(a, "get", d, now + dl) /\ Rec([E0 EXCEPT !.k = "get", !.a = a, !.x = dl, !.d = d])
GStart == \E a \in DOMAIN pop : Free(a) /\ Start(a) /\ Rec([E0 EXCEPT !.k = "process", !.a = a])
GEnd == \E a \in DOMAIN pop : a \notin DOMAIN wt /\ End(a) /\ Silent
GLeave == Cardinality(Agents \ DOMAIN pop) < Deaths /\ \E a \in DOMAIN pop : ~batch[a].on /\ Leave(a) /\ Rec([E0 EXCEPT !.k = "die", !.a = a])
GPrint == ~done /\ PrintT("SCEN " \o ToJson([h |-> hist, g |-> [a \in DOMAIN inbox |-> IF a \in DOMAIN pop THEN pop[a].g ELSE 1]])) /\ done' = TRUE /\ UNCHANGED <<vars, hist>>
GNext == IF Full THEN GPrint ELSE
           GTick \/ GTell \/ GBcast \/ GAsk \/ GWait \/ GStart \/ (MCRecv /\ Silent) \/ GEnd
           \/ (MCAnswer /\ Silent) \/ (MCMessages /\ Silent) \/ (MCTimeout /\ Silent) \/ GLeave
GSpec == MCInit /\ hist = <<>> /\ done = FALSE /\ [][GNext]_gvars
=============================================================================
