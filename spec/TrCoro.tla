------------------------------ MODULE TrCoro ------------------------------
(* Validation of the traces of harness/drv_coro.py against Coro. *)
EXTENDS Coro, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)

VARIABLES tid, l, ok
tvars == <<vars, tid, l, ok>>

Cfg == Traces[tid].cfg
Ev == Traces[tid].ev

EvBad(e) ==
  CASE e.k = "start" -> StartBad(e.a)
    [] e.k = "seg"   -> SegBad(e.a, e.s, e.i, e.x, e.t)
    [] e.k = "break" -> BreakBad(e.a, e.s, e.i, e.x, e.t)
    [] e.k = "clock" -> ClockBad(e.t)
    [] e.k = "define" -> DefineBad(e.w, e.r)
    [] OTHER -> {"unexpected-" \o e.k}

EvDo(e) ==
  \/ e.k = "start" /\ Start(e.a, e.p, e.t)
  \/ e.k = "seg"   /\ Seg(e.a, e.s, e.i, e.x, e.t)
  \/ e.k = "break" /\ Break(e.a, e.s, e.i, e.x, e.t)
  \/ e.k \in {"clock", "define"} /\ UNCHANGED vars

TInit == /\ tid \in 1..Len(Traces)
         /\ CInit(Cfg.dflt)
         /\ l = 1 /\ ok = TRUE

Accept == /\ ok /\ l = Len(Ev) + 1
          /\ PrintT(<<"VERDICT", Traces[tid].id, "ACCEPT", l, {}>>)
          /\ ok' = FALSE /\ UNCHANGED <<vars, tid, l>>
Reject == /\ ok /\ l <= Len(Ev) /\ EvBad(Ev[l]) # {}
          /\ PrintT(<<"VERDICT", Traces[tid].id, "REJECT", l, EvBad(Ev[l])>>)
          /\ ok' = FALSE /\ UNCHANGED <<vars, tid, l>>
Match  == /\ ok /\ l <= Len(Ev) /\ EvBad(Ev[l]) = {}
          /\ EvDo(Ev[l]) /\ l' = l + 1 /\ UNCHANGED <<tid, ok>>

TNext == Accept \/ Reject \/ Match
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
