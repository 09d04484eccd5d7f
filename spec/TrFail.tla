------------------------------ MODULE TrFail ------------------------------
(* Validation of the traces of harness/drv_fail.py against Fail. *)
EXTENDS Fail, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)

VARIABLES tid, l, ok
tvars == <<vars, tid, l, ok>>

Cfg == Traces[tid].cfg
Ev == Traces[tid].ev

EvBad(e) ==
  CASE e.k = "begin"    -> BeginBad(e.r)
    [] e.k = "start"    -> StartBad
    [] e.k = "work"     -> WorkBad
    [] e.k = "raise"    -> RaiseBad(e.x)
    [] e.k = "ready"    -> ReadyBad(e.b)
    [] e.k = "caught"   -> CaughtBad(e.x)
    [] e.k = "returned" -> ReturnedBad(e.n, e.d)
    [] e.k = "database" -> DatabaseBad(e.q)
    [] OTHER -> {"unexpected-" \o e.k}

EvDo(e) ==
  \/ e.k = "begin"    /\ Begin(e.r, e.s, e.n)
  \/ e.k = "start"    /\ Start
  \/ e.k = "raise"    /\ Raise(e.x)
  \/ e.k = "ready"    /\ Ready(e.b, e.d, e.st)
  \/ e.k = "caught"   /\ Caught(e.x)
  \/ e.k = "returned" /\ Returned(e.n, e.d)
  \/ e.k \in {"work", "database"} /\ UNCHANGED vars

TInit == /\ tid \in 1..Len(Traces)
         /\ FInit
         /\ l = 1 /\ ok = TRUE

Accept == /\ ok /\ l = Len(Ev) + 1
          /\ PrintT(<<"VERDICT", Traces[tid].id, "ACCEPT", l, {}>>)
          /\ ok' = FALSE /\ UNCHANGED <<vars, tid, l>>
Reject == /\ ok /\ l <= Len(Ev) /\ EvBad(Ev[l]) # {}
          /\ PrintT(<<"VERDICT", Traces[tid].id, "REJECT", l, EvBad(Ev[l])>>)
          /\ ok' = FALSE /\ UNCHANGED <<vars, tid, l>>
Match  == /\ ok /\ l <= Len(Ev) /\ EvBad(Ev[l]) = {}
          /\ EvDo(Ev[l]) /\ l' = l + 1 /\ UNCHANGED <<tid, ok>>

TNext == Accept \/ Reject \/ Match
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
