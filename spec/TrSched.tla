------------------------------ MODULE TrSched ------------------------------
(* Validation of the traces of harness/drv_sched.py against Sched.            *)
EXTENDS Sched, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)

VARIABLES tid, l, ok
tvars == <<vars, tid, l, ok>>

Ev == Traces[tid].ev

EvBad(e) ==
  CASE e.k = "add"   -> AddBad(e.a, e.w)
    [] e.k = "past"  -> AddPastBad(e.a, e.w)
    [] e.k = "begin" -> StepBeginBad(e.t)
    [] e.k = "act"   -> ActBad(e.a, e.t)
    [] e.k = "ret"   -> RetBad(e.a, e.d)
    [] e.k = "refused" -> RefusedBad(e.a, e.d)
    [] e.k = "kill"  -> KillBad(e.a)
    [] e.k = "end"   -> StepEndBad(e.t, e.r)
    [] e.k = "seen"  -> SeenBad(e.ids)
    [] e.k = "dead"  -> DeadStepBad(e.a, e.r)
    [] e.k = "again" -> AgainBad(e.a)
    [] e.k = "life"  -> LifeBad(e.a, e.r)
    [] OTHER         -> {"unexpected-" \o e.k}

EvDo(e) ==
  \/ e.k = "add"   /\ Add(e.a, e.w)
  \/ e.k = "past"  /\ AddPast(e.a, e.w)
  \/ e.k = "begin" /\ StepBegin(e.t)
  \/ e.k = "act"   /\ Act(e.a, e.t)
  \/ e.k = "ret"   /\ Ret(e.a, e.d)
  \/ e.k = "kill"  /\ Kill(e.a)
  \/ e.k = "end"   /\ StepEnd(e.t, e.r)
  \/ e.k \in {"seen", "dead", "life", "again", "refused"} /\ UNCHANGED vars

TInit == /\ tid \in 1..Len(Traces)
         /\ SInit([dflt |-> Traces[tid].cfg.dflt, order |-> Traces[tid].cfg.order])
         /\ l = 1 /\ ok = TRUE

Accept == /\ ok /\ l = Len(Ev) + 1
          /\ PrintT(<<"VERDICT", Traces[tid].id, "ACCEPT", l, {}>>)
          /\ ok' = FALSE /\ UNCHANGED <<vars, tid, l>>
Reject == /\ ok /\ l <= Len(Ev) /\ EvBad(Ev[l]) # {}
          /\ PrintT(<<"VERDICT", Traces[tid].id, "REJECT", l, EvBad(Ev[l])>>)
          /\ ok' = FALSE /\ UNCHANGED <<vars, tid, l>>
Match  == /\ ok /\ l <= Len(Ev) /\ EvBad(Ev[l]) = {}
          /\ EvDo(Ev[l]) /\ l' = l + 1 /\ UNCHANGED <<tid, ok>>

TNext == Accept \/ Reject \/ Match
TSpec == TInit /\ [][TNext]_tvars

\* The invariants of the design are evaluated at every step of every trace
TNothingInThePast == \A a \in DOMAIN wake : wake[a] >= now
TAccounted == DOMAIN wake \subseteq alive /\ \A i \in DOMAIN cur : cur[i] \notin DOMAIN wake
TFinal == alive \cap gone = {} /\ gone \cap DOMAIN wake = {}
============================================================================
