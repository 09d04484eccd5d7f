------------------------------ MODULE TrLog ------------------------------
(* Validation of the traces of harness/drv_log.py against Log. *)
EXTENDS Log, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)

VARIABLES tid, l, ok
tvars == <<vars, tid, l, ok>>

Cfg == Traces[tid].cfg
Ev == Traces[tid].ev

EvBad(e) ==
  CASE e.k = "logger" -> {}
    [] e.k = "level"  -> {}
    [] e.k = "say"    -> SayBad(e.x, e.v, e.out)
    [] e.k = "ran"    -> RanBad(e.s, e.d)
    [] OTHER -> {"unexpected-" \o e.k}

EvDo(e) ==
  \/ e.k = "logger" /\ Add(e.x, e.p, e.v)
  \/ e.k = "level"  /\ SetLevel(e.x, e.v)
  \/ e.k = "ran"    /\ Ran(e.s, e.d)
  \/ e.k \in {"say"} /\ UNCHANGED vars

TInit == /\ tid \in 1..Len(Traces)
         /\ LInit
         /\ l = 1 /\ ok = TRUE

Accept == /\ ok /\ l = Len(Ev) + 1
          /\ PrintT(<<"VERDICT", Traces[tid].id, "ACCEPT", l, {}>>)
          /\ ok' = FALSE /\ UNCHANGED <<vars, tid, l>>
Reject == /\ ok /\ l <= Len(Ev) /\ EvBad(Ev[l]) # {}
          /\ PrintT(<<"VERDICT", Traces[tid].id, "REJECT", l, EvBad(Ev[l])>>)
          /\ ok' = FALSE /\ UNCHANGED <<vars, tid, l>>
Match  == /\ ok /\ l <= Len(Ev) /\ EvBad(Ev[l]) = {}
          /\ EvDo(Ev[l]) /\ l' = l + 1 /\ UNCHANGED <<tid, ok>>

TNext == Accept \/ Reject \/ Match
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
