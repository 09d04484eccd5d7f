------------------------------ MODULE TrFsmClass ------------------------------
(* Validation of the traces of harness/drv_fsmclass.py against FsmClass. *)
EXTENDS FsmClass, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)

VARIABLES tid, l, ok
tvars == <<vars, tid, l, ok>>

Cfg == Traces[tid].cfg
Ev == Traces[tid].ev

EvBad(e) ==
  CASE e.k = "states" -> StatesBad(e.c, e.ss)
    [] e.k = "make"   -> MakeBad(e.c, e.sid, e.res, e.s)
    [] e.k = "ran"    -> RanBad(e.a, e.s, e.v, e.n)
    [] e.k = "id"     -> IdBad(e.a, e.s)
    [] e.k = "acted"  -> ActedBad(e.a, e.s, e.times)
    [] e.k = "set" -> SetBad(e.a, e.t, e.s, e.res)
    [] OTHER -> {"unexpected-" \o e.k}

EvDo(e) ==
  \/ e.k = "make"   /\ Make(e.a, e.c, e.sid, e.res, e.s)
  \/ e.k = "ran"    /\ Ran(e.a, e.s, e.v, e.n)
  \/ e.k = "set"    /\ Set(e.a, e.t, e.s, e.res)
  \/ e.k \in {"states", "id", "acted"} /\ UNCHANGED vars

TInit == /\ tid \in 1..Len(Traces)
         /\ CInit(Cfg.chain)
         /\ l = 1 /\ ok = TRUE

Accept == /\ ok /\ l = Len(Ev) + 1
          /\ PrintT(<<"VERDICT", Traces[tid].id, "ACCEPT", l, {}>>)
          /\ ok' = FALSE /\ UNCHANGED <<vars, tid, l>>
Reject == /\ ok /\ l <= Len(Ev) /\ EvBad(Ev[l]) # {}
          /\ PrintT(<<"VERDICT", Traces[tid].id, "REJECT", l, EvBad(Ev[l])>>)
          /\ ok' = FALSE /\ UNCHANGED <<vars, tid, l>>
Match  == /\ ok /\ l <= Len(Ev) /\ EvBad(Ev[l]) = {}
          /\ EvDo(Ev[l]) /\ l' = l + 1 /\ UNCHANGED <<tid, ok>>

TNext == Accept \/ Reject \/ Match
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
