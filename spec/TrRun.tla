------------------------------ MODULE TrRun ------------------------------
(* Validation of the traces of harness/drv_run.py against Run. *)
EXTENDS Run, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)

VARIABLES tid, l, ok
tvars == <<vars, tid, l, ok>>

Cfg == Traces[tid].cfg
Ev == Traces[tid].ev

EvBad(e) ==
  CASE e.k = "ready"    -> ReadyBad(e.n, e.t, e.s, e.r)
    [] e.k = "step"     -> StepBad(e.t, e.s, e.r)
    [] e.k = "act"      -> ActBad(e.t)
    [] e.k = "ended"    -> EndStepBad(e.t, e.s, e.r)
    [] e.k = "done"     -> DoneBad(e.t, e.s, e.r)
    [] e.k = "noagents" -> NoAgentsBad(e.n)
    [] OTHER -> {"unexpected-" \o e.k}

EvDo(e) ==
  \/ e.k = "ready"    /\ Ready(e.n, e.t, e.s, e.r)
  \/ e.k = "step"     /\ Step(e.t, e.s, e.r)
  \/ e.k = "act"      /\ Act(e.t)
  \/ e.k = "ended"    /\ EndStep(e.t, e.s, e.r)
  \/ e.k = "done"     /\ Done(e.t, e.s, e.r)
  \/ e.k \in {"noagents"} /\ UNCHANGED vars

TInit == /\ tid \in 1..Len(Traces)
         /\ RInit([t |-> Cfg.t, s |-> Cfg.s])
         /\ l = 1 /\ ok = TRUE

Accept == /\ ok /\ l = Len(Ev) + 1
          /\ PrintT(<<"VERDICT", Traces[tid].id, "ACCEPT", l, {}>>)
          /\ ok' = FALSE /\ UNCHANGED <<vars, tid, l>>
Reject == /\ ok /\ l <= Len(Ev) /\ EvBad(Ev[l]) # {}
          /\ PrintT(<<"VERDICT", Traces[tid].id, "REJECT", l, EvBad(Ev[l])>>)
          /\ ok' = FALSE /\ UNCHANGED <<vars, tid, l>>
Match  == /\ ok /\ l <= Len(Ev) /\ EvBad(Ev[l]) = {}
          /\ EvDo(Ev[l]) /\ l' = l + 1 /\ UNCHANGED <<tid, ok>>

TNext == Accept \/ Reject \/ Match
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
