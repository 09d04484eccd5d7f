------------------------------ MODULE TrMsg ------------------------------
(* Validation of the traces of harness/drv_msg.py against Msg. *)
EXTENDS Msg, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)

VARIABLES tid, l, ok
tvars == <<vars, tid, l, ok>>

Cfg == Traces[tid].cfg
Ev == Traces[tid].ev

EvBad(e) ==
  CASE e.k = "join"    -> {}
    [] e.k = "leave"   -> {}
    [] e.k = "clock"   -> ClockBad(e.t) \cup MissedBad(e.t)
    [] e.k = "stop"    -> StopBad
    [] e.k = "tell"    -> {}
    [] e.k = "bcast"   -> {}
    [] e.k = "start"   -> StartBad(e.a)
    [] e.k = "recv"    -> RecvBad(e.a, e.m, e.s, e.v, e.t)
    [] e.k = "end"     -> EndBad(e.a)
    [] e.k = "break"   -> BreakBad(e.a)
    [] e.k = "ask"     -> {}
    [] e.k = "wait"    -> {}
    [] e.k = "answer"  -> AnswerBad(e.a, e.v, e.t)
    [] e.k = "msgs"    -> MessagesBad(e.a, e.ms, e.t)
    [] e.k = "timeout" -> TimeoutBad(e.a, e.t)
    [] OTHER -> {"unexpected-" \o e.k}

EvDo(e) ==
  \/ e.k = "join"    /\ Join(e.a, e.g, e.box)
  \/ e.k = "leave"   /\ Leave(e.a)
  \/ e.k = "clock"   /\ Tick(e.t)
  \/ e.k = "tell"    /\ Tell(e.b, e.m, e.s)
  \/ e.k = "bcast"   /\ Broadcast(e.m, e.s, e.g, e.x)
  \/ e.k = "start"   /\ Start(e.a)
  \/ e.k = "recv"    /\ Recv(e.a, e.m, e.s, e.v, e.t)
  \/ e.k = "end"     /\ End(e.a)
  \/ e.k = "break"   /\ Break(e.a)
  \/ e.k = "ask"     /\ Ask(e.a, e.b, e.q, e.m, Anyone, e.d, e.x)
  \/ e.k = "wait"    /\ Wait(e.a, e.w, e.d, e.x)
  \/ e.k = "answer"  /\ Answer(e.a, e.v, e.t)
  \/ e.k = "msgs"    /\ Messages(e.a, e.ms, e.t)
  \/ e.k = "timeout" /\ Timeout(e.a, e.t)
  \/ e.k \in {"stop"} /\ UNCHANGED vars

TInit == /\ tid \in 1..Len(Traces)
         /\ MInit
         /\ l = 1 /\ ok = TRUE

Accept == /\ ok /\ l = Len(Ev) + 1
          /\ PrintT(<<"VERDICT", Traces[tid].id, "ACCEPT", l, {}>>)
          /\ ok' = FALSE /\ UNCHANGED <<vars, tid, l>>
Reject == /\ ok /\ l <= Len(Ev) /\ EvBad(Ev[l]) # {}
          /\ PrintT(<<"VERDICT", Traces[tid].id, "REJECT", l, EvBad(Ev[l])>>)
          /\ ok' = FALSE /\ UNCHANGED <<vars, tid, l>>
Match  == /\ ok /\ l <= Len(Ev) /\ EvBad(Ev[l]) = {}
          /\ EvDo(Ev[l]) /\ l' = l + 1 /\ UNCHANGED <<tid, ok>>

TNext == Accept \/ Reject \/ Match
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
