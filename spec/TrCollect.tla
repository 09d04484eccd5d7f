------------------------------ MODULE TrCollect ------------------------------
(* Validation of the traces of harness/drv_collect.py against Collect. *)
EXTENDS Collect, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)

VARIABLES tid, l, ok
tvars == <<vars, tid, l, ok>>

Cfg == Traces[tid].cfg
Ev == Traces[tid].ev

G(q) == [a \in {q[i][1] : i \in DOMAIN q} |-> q[CHOOSE i \in DOMAIN q : q[i][1] = a][2]]
R(e) == [t |-> e.t, m |-> e.m, g |-> G(e.g)]

EvBad(e) ==
  CASE e.k = "moment" -> MomentBad(R(e))
    [] e.k = "model"  -> ModelDataBad(e.rows, e.bystep, Rng(e.cols))
    [] e.k = "agents" -> AgentDataBad(e.rows, e.bystep)
    [] e.k = "row"    -> {}
    [] e.k = "table"  -> TableBad(e.t, e.rows)
    [] OTHER -> {"unexpected-" \o e.k}

EvDo(e) ==
  \/ e.k = "moment" /\ Moment(R(e))
  \/ e.k = "row" /\ AddRow(e.t, e.r)
  \/ e.k \in {"model", "agents", "table"} /\ UNCHANGED vars

TInit == /\ tid \in 1..Len(Traces)
         /\ KInit
         /\ l = 1 /\ ok = TRUE

Accept == /\ ok /\ l = Len(Ev) + 1
          /\ PrintT(<<"VERDICT", Traces[tid].id, "ACCEPT", l, {}>>)
          /\ ok' = FALSE /\ UNCHANGED <<vars, tid, l>>
Reject == /\ ok /\ l <= Len(Ev) /\ EvBad(Ev[l]) # {}
          /\ PrintT(<<"VERDICT", Traces[tid].id, "REJECT", l, EvBad(Ev[l])>>)
          /\ ok' = FALSE /\ UNCHANGED <<vars, tid, l>>
Match  == /\ ok /\ l <= Len(Ev) /\ EvBad(Ev[l]) = {}
          /\ EvDo(Ev[l]) /\ l' = l + 1 /\ UNCHANGED <<tid, ok>>

TNext == Accept \/ Reject \/ Match
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
