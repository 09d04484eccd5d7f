------------------------------ MODULE GenSched ------------------------------
(* Behaviours of Sched, printed as JSON: each of them becomes a scenario that
   is replayed by harness/drv_sched.py on the real schedulers.                *)
EXTENDS MCSched, Json

VARIABLES hist, done
gvars == <<vars, hist, done>>
CONSTANTS Depth, MaxKills

Rec(e) == hist' = Append(hist, e) /\ UNCHANGED done

Count(kind) == Cardinality({i \in DOMAIN hist : hist[i].k = kind})
\* Agents are added and removed by other agents, or between steps
Outside == ~instep \/ cur # <<>>

GAdd == /\ now < Inf /\ Outside
        /\ \E a \in Agents \ (alive \cup gone), w \in {None, now, now + 1, now + 2, now + 5} :
              /\ \A b \in Agents \ (alive \cup gone) : a <= b
              /\ Add(a, w) /\ Rec([k |-> "add", a |-> a, w |-> w])
GPast == /\ ~instep /\ now > 0 /\ now < Inf /\ Count("past") < 1
         /\ \E a \in Agents \ (alive \cup gone), w \in {0, now - 1} :
              AddPast(a, w) /\ Rec([k |-> "past", a |-> a, w |-> w])
GBegin == MCBegin /\ Rec([k |-> "begin", a |-> 0, w |-> 0])
GAct == \E a \in Agents : Act(a, now) /\ Rec([k |-> "act", a |-> a, w |-> 0])
GRet == \E a \in Agents, d \in Delays : cur = <<a>> /\ Ret(a, d) /\ Rec([k |-> "ret", a |-> a, w |-> d])
GKill == /\ Outside /\ Count("kill") < MaxKills
         /\ \E b \in alive : Kill(b) /\ Rec([k |-> "kill", a |-> b, w |-> 0])
GEnd == \E t \in Targets, r \in BOOLEAN :
             instep /\ StepEnd(t, r) /\ Rec([k |-> "end", a |-> 0, w |-> t])
GPrint == /\ ~done /\ (Len(hist) >= Depth \/ (hist # <<>> /\ ~running))
          /\ PrintT("SCEN " \o ToJson([c |-> cfg, h |-> hist]))
          /\ done' = TRUE /\ UNCHANGED <<vars, hist>>
GNext == IF Len(hist) >= Depth \/ (hist # <<>> /\ ~running) THEN GPrint
         ELSE GAdd \/ GPast \/ GBegin \/ GAct \/ GRet \/ GKill \/ GEnd
GInit == MCInit /\ hist = <<>> /\ done = FALSE
GSpec == GInit /\ [][GNext]_gvars
=============================================================================
