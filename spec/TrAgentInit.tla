------------------------------ MODULE TrAgentInit ------------------------------
(* Validation of the traces of harness/drv_init.py against AgentInit. *)
EXTENDS AgentInit, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)

VARIABLES tid, l, ok
tvars == <<vars, tid, l, ok>>

Cfg == Traces[tid].cfg
Ev == Traces[tid].ev

P(q) == [n \in {q[i][1] : i \in DOMAIN q} |-> q[CHOOSE i \in DOMAIN q : q[i][1] = n][2]]
Classes(cs) == /\ classes' = [c \in {i - 1 : i \in DOMAIN cs} |-> [j \in DOMAIN cs[c + 1] |-> P(cs[c + 1][j])]]
               /\ UNCHANGED <<model, state>>

EvBad(e) ==
  CASE e.k = "classes" -> {}
    [] e.k = "model"   -> {}
    [] e.k = "create"  -> CreateBad(e.a, e.c, P(e.args), P(e.st))
    [] e.k = "born"    -> BornBad(e.ids)
    [] e.k = "write"   -> {}
    [] e.k = "erase"   -> {}
    [] e.k = "see"     -> SeeBad(e.a, P(e.st))
    [] e.k = "read"    -> ReadBad(e.a, e.n, e.v)
    [] e.k = "has"     -> HasBad(e.a, e.n, e.yes)
    [] OTHER -> {"unexpected-" \o e.k}

EvDo(e) ==
  \/ e.k = "classes" /\ Classes(e.cs)
  \/ e.k = "model"   /\ SetModel(e.n, e.v)
  \/ e.k = "create"  /\ Create(e.a, e.c, P(e.args), P(e.st))
  \/ e.k = "write"   /\ Write(e.a, e.n, e.v)
  \/ e.k = "erase"   /\ Erase(e.a, e.n)
  \/ e.k \in {"see", "born", "read", "has"} /\ UNCHANGED vars

TInit == /\ tid \in 1..Len(Traces)
         /\ AInit(<<>>)
         /\ l = 1 /\ ok = TRUE

Accept == /\ ok /\ l = Len(Ev) + 1
          /\ PrintT(<<"VERDICT", Traces[tid].id, "ACCEPT", l, {}>>)
          /\ ok' = FALSE /\ UNCHANGED <<vars, tid, l>>
Reject == /\ ok /\ l <= Len(Ev) /\ EvBad(Ev[l]) # {}
          /\ PrintT(<<"VERDICT", Traces[tid].id, "REJECT", l, EvBad(Ev[l])>>)
          /\ ok' = FALSE /\ UNCHANGED <<vars, tid, l>>
Match  == /\ ok /\ l <= Len(Ev) /\ EvBad(Ev[l]) = {}
          /\ EvDo(Ev[l]) /\ l' = l + 1 /\ UNCHANGED <<tid, ok>>

TNext == Accept \/ Reject \/ Match
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
