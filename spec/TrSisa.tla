------------------------------ MODULE TrSisa ------------------------------
(* Validation of the traces of harness/drv_sisa.py against Sisa. *)
EXTENDS Sisa, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)

VARIABLES tid, l, ok
tvars == <<vars, tid, l, ok>>

Cfg == Traces[tid].cfg
Ev == Traces[tid].ev

EvBad(e) ==
  CASE e.k = "join"    -> {}
    [] e.k = "leave"   -> {}
    [] e.k = "connect" -> {}
    [] e.k = "cut"     -> {}
    [] e.k = "force"   -> {}
    [] e.k = "move"    -> MoveBad(e.a, e.s, e.t)
    [] e.k = "see"     -> If(e.a \notin DOMAIN st, "unknown-agent") \cup If(e.a \in DOMAIN st /\ st[e.a] # e.s, "state-changed-between-activations")
    [] OTHER -> {"unexpected-" \o e.k}

EvDo(e) ==
  \/ e.k = "join"    /\ Join(e.a, e.s)
  \/ e.k = "leave"   /\ Leave(e.a)
  \/ e.k = "connect" /\ Connect(e.a, e.b)
  \/ e.k = "cut"     /\ Cut(e.a, e.b)
  \/ e.k = "force"   /\ Force(e.a, e.s)
  \/ e.k = "move"    /\ Move(e.a, e.s, e.t)
  \/ e.k \in {"see"} /\ UNCHANGED vars

TInit == /\ tid \in 1..Len(Traces)
         /\ SInit(Cfg.q)
         /\ l = 1 /\ ok = TRUE

Accept == /\ ok /\ l = Len(Ev) + 1
          /\ PrintT(<<"VERDICT", Traces[tid].id, "ACCEPT", l, {}>>)
          /\ ok' = FALSE /\ UNCHANGED <<vars, tid, l>>
Reject == /\ ok /\ l <= Len(Ev) /\ EvBad(Ev[l]) # {}
          /\ PrintT(<<"VERDICT", Traces[tid].id, "REJECT", l, EvBad(Ev[l])>>)
          /\ ok' = FALSE /\ UNCHANGED <<vars, tid, l>>
Match  == /\ ok /\ l <= Len(Ev) /\ EvBad(Ev[l]) = {}
          /\ EvDo(Ev[l]) /\ l' = l + 1 /\ UNCHANGED <<tid, ok>>

TNext == Accept \/ Reject \/ Match
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
