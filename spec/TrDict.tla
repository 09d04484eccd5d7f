------------------------------ MODULE TrDict ------------------------------
(* Validation of the traces of harness/drv_dict.py against Dict. *)
EXTENDS Dict, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)

VARIABLES tid, l, ok
tvars == <<vars, tid, l, ok>>

Cfg == Traces[tid].cfg
Ev == Traces[tid].ev

F(q) == [n \in {q[i][1] : i \in DOMAIN q} |-> q[CHOOSE i \in DOMAIN q : q[i][1] = n][2]]

EvBad(e) ==
  CASE e.k = "env"        -> {}
    [] e.k = "agent"      -> {}
    [] e.k = "die"        -> {}
    [] e.k = "set"        -> {}
    [] e.k = "setdefault" -> SetDefaultBad(e.o, e.n, e.v, e.r)
    [] e.k = "del"        -> DelBad(e.o, e.n, e.w, e.r, e.d)
    [] e.k = "look"       -> LookBad(e.o, e.n, e.w, e.r, e.d)
    [] e.k = "names"      -> NamesBad(e.o, e.ns, e.only, e.skip)
    [] e.k = "items"      -> ItemsBad(e.o, e.q, e.only, e.skip)
    [] e.k = "len"        -> LenBad(e.o, e.n, e.b)
    [] e.k = "iter"       -> IterBad(e.o, e.q)
    [] OTHER -> {"unexpected-" \o e.k}

EvDo(e) ==
  \/ e.k = "env"        /\ NewEnv(e.o, F(e.f), F(e.c))
  \/ e.k = "agent"      /\ NewAgent(e.o, e.e, F(e.f), F(e.c))
  \/ e.k = "die"        /\ Die(e.o)
  \/ e.k = "set"        /\ Set(e.o, e.n, e.v)
  \/ e.k = "setdefault" /\ SetDefault(e.o, e.n, e.v)
  \/ e.k = "del"        /\ Del(e.o, e.n)
  \/ e.k \in {"look", "names", "items", "len", "iter"} /\ UNCHANGED vars

TInit == /\ tid \in 1..Len(Traces)
         /\ DInit
         /\ l = 1 /\ ok = TRUE

Accept == /\ ok /\ l = Len(Ev) + 1
          /\ PrintT(<<"VERDICT", Traces[tid].id, "ACCEPT", l, {}>>)
          /\ ok' = FALSE /\ UNCHANGED <<vars, tid, l>>
Reject == /\ ok /\ l <= Len(Ev) /\ EvBad(Ev[l]) # {}
          /\ PrintT(<<"VERDICT", Traces[tid].id, "REJECT", l, EvBad(Ev[l])>>)
          /\ ok' = FALSE /\ UNCHANGED <<vars, tid, l>>
Match  == /\ ok /\ l <= Len(Ev) /\ EvBad(Ev[l]) = {}
          /\ EvDo(Ev[l]) /\ l' = l + 1 /\ UNCHANGED <<tid, ok>>

TNext == Accept \/ Reject \/ Match
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
