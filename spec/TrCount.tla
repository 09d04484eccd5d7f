------------------------------ MODULE TrCount ------------------------------
(* Validation of the traces of harness/drv_count.py against Count. *)
EXTENDS Count, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)

VARIABLES tid, l, ok
tvars == <<vars, tid, l, ok>>

Cfg == Traces[tid].cfg
Ev == Traces[tid].ev

EvBad(e) ==
  CASE e.k = "born" -> {}
    [] e.k = "die"  -> {}
    [] e.k = "link" -> {}
    [] e.k = "cut"  -> {}
    [] e.k = "act"  -> ActBad(e.a, e.t, e.n, e.s)
    [] e.k = "show" -> ShowBad(e.a, e.t, e.n, e.s)
    [] OTHER -> {"unexpected-" \o e.k}

EvDo(e) ==
  \/ e.k = "born" /\ Born(e.a, e.n, e.c)
  \/ e.k = "die"  /\ Die(e.a)
  \/ e.k = "link" /\ Link(e.u, e.v)
  \/ e.k = "cut"  /\ Cut(e.u, e.v)
  \/ e.k = "act"  /\ Act(e.a)
  \/ e.k \in {"show"} /\ UNCHANGED vars

TInit == /\ tid \in 1..Len(Traces)
         /\ CInit({{Cfg.edges[i][1], Cfg.edges[i][2]} : i \in DOMAIN Cfg.edges})
         /\ l = 1 /\ ok = TRUE

Accept == /\ ok /\ l = Len(Ev) + 1
          /\ PrintT(<<"VERDICT", Traces[tid].id, "ACCEPT", l, {}>>)
          /\ ok' = FALSE /\ UNCHANGED <<vars, tid, l>>
Reject == /\ ok /\ l <= Len(Ev) /\ EvBad(Ev[l]) # {}
          /\ PrintT(<<"VERDICT", Traces[tid].id, "REJECT", l, EvBad(Ev[l])>>)
          /\ ok' = FALSE /\ UNCHANGED <<vars, tid, l>>
Match  == /\ ok /\ l <= Len(Ev) /\ EvBad(Ev[l]) = {}
          /\ EvDo(Ev[l]) /\ l' = l + 1 /\ UNCHANGED <<tid, ok>>

TNext == Accept \/ Reject \/ Match
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
