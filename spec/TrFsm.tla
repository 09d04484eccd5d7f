------------------------------ MODULE TrFsm ------------------------------
(* Validation of the traces of harness/drv_fsm.py against Fsm. *)
EXTENDS Fsm, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)

VARIABLES tid, l, ok
tvars == <<vars, tid, l, ok>>

Cfg == Traces[tid].cfg
Ev == Traces[tid].ev

EvBad(e) ==
  CASE e.k = "make"   -> MakeBad(e.a, e.s)
    [] e.k = "run"    -> RunBad(e.a, e.s, e.i, e.t)
    [] e.k = "ask"    -> AskBad(e.a, e.s, e.d)
    [] e.k = "force" -> {}
    [] e.k = "yield"  -> AskBad(e.a, "", e.d)
    [] e.k = "id"     -> IdBad(e.a, e.s)
    [] e.k = "wrong"  -> WrongBad(e.a, e.r, e.s)
    [] e.k = "direct" -> DirectBad(e.a, e.s, e.d, e.rs, e.rd)
    [] e.k = "clock"  -> ClockBad(e.t)
    [] OTHER -> {"unexpected-" \o e.k}

EvDo(e) ==
  \/ e.k = "make"   /\ Make(e.a, e.s, e.t)
  \/ e.k = "run"    /\ RunState(e.a, e.s, e.i, e.t)
  \/ e.k = "ask"    /\ AskFor(e.a, e.s, e.d)
  \/ e.k = "force" /\ Force(e.a, e.s)
  \/ e.k = "yield"  /\ Yield(e.a, e.d)
  \/ e.k = "wrong"  /\ Wrong(e.a, e.r, e.s)
  \/ e.k = "direct" /\ Direct(e.a, e.s, e.d, e.rs, e.rd)
  \/ e.k \in {"id", "clock"} /\ UNCHANGED vars

TInit == /\ tid \in 1..Len(Traces)
         /\ FInit(Rng(Cfg.states), Cfg.dflt)
         /\ l = 1 /\ ok = TRUE

Accept == /\ ok /\ l = Len(Ev) + 1
          /\ PrintT(<<"VERDICT", Traces[tid].id, "ACCEPT", l, {}>>)
          /\ ok' = FALSE /\ UNCHANGED <<vars, tid, l>>
Reject == /\ ok /\ l <= Len(Ev) /\ EvBad(Ev[l]) # {}
          /\ PrintT(<<"VERDICT", Traces[tid].id, "REJECT", l, EvBad(Ev[l])>>)
          /\ ok' = FALSE /\ UNCHANGED <<vars, tid, l>>
Match  == /\ ok /\ l <= Len(Ev) /\ EvBad(Ev[l]) = {}
          /\ EvDo(Ev[l]) /\ l' = l + 1 /\ UNCHANGED <<tid, ok>>

TNext == Accept \/ Reject \/ Match
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
