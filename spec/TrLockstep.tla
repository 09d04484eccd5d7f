------------------------------ MODULE TrLockstep ------------------------------
(* Validation of the traces of harness/drv_lockstep.py against Lockstep. *)
EXTENDS Lockstep, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)

VARIABLES tid, l, ok
tvars == <<vars, tid, l, ok>>

Cfg == Traces[tid].cfg
Ev == Traces[tid].ev

OnGrid == clock = n * width
NotMissed == \A a \in DOMAIN due : due[a] >= clock

EvBad(e) ==
  CASE e.k = "join"  -> {}
    [] e.k = "leave" -> {}
    [] e.k = "begin" -> BeginBad
    [] e.k = "act"   -> ActBad(e.a, e.t)
    [] e.k = "ask"   -> {}
    [] e.k = "end"   -> EndBad(e.t, e.n)
    [] e.k = "now"   -> If(e.t # clock, "the-model-sees-another-time")
    [] OTHER -> {"unexpected-" \o e.k}

EvDo(e) ==
  \/ e.k = "join"  /\ Join(e.a)
  \/ e.k = "leave" /\ Leave(e.a)
  \/ e.k = "begin" /\ Begin
  \/ e.k = "act"   /\ Act(e.a, e.t)
  \/ e.k = "ask"   /\ Ask(e.a, e.d)
  \/ e.k = "end"   /\ End(e.t, e.n)
  \/ e.k \in {"now"} /\ UNCHANGED vars

TInit == /\ tid \in 1..Len(Traces)
         /\ LInit(Cfg.w, Cfg.d)
         /\ l = 1 /\ ok = TRUE

Accept == /\ ok /\ l = Len(Ev) + 1
          /\ PrintT(<<"VERDICT", Traces[tid].id, "ACCEPT", l, {}>>)
          /\ ok' = FALSE /\ UNCHANGED <<vars, tid, l>>
Reject == /\ ok /\ l <= Len(Ev) /\ EvBad(Ev[l]) # {}
          /\ PrintT(<<"VERDICT", Traces[tid].id, "REJECT", l, EvBad(Ev[l])>>)
          /\ ok' = FALSE /\ UNCHANGED <<vars, tid, l>>
Match  == /\ ok /\ l <= Len(Ev) /\ EvBad(Ev[l]) = {}
          /\ EvDo(Ev[l]) /\ l' = l + 1 /\ UNCHANGED <<tid, ok>>

TNext == Accept \/ Reject \/ Match
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
