------------------------------ MODULE TrQuery ------------------------------
(* Validation of the traces of harness/drv_query.py against Query. *)
EXTENDS Query, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)

VARIABLES tid, l, ok
tvars == <<vars, tid, l, ok>>

Cfg == Traces[tid].cfg
Ev == Traces[tid].ev

Pairs(q) == {<<q[i][1], q[i][2]>> : i \in DOMAIN q}
Sets(q) == [i \in DOMAIN q |-> Rng(q[i])]
Rec(r) == [isa |-> Rng(r.isa), st |-> r.st, at |-> r.at, n |-> r.n]
F(f) == [ids |-> Sets(f.ids), sts |-> Sets(f.sts), cls |-> Sets(f.cls), ats |-> {<<f.ats[i][1], Rng(f.ats[i][2])>> : i \in DOMAIN f.ats},
         lim |-> f.lim, nb |-> f.nb]

EvBad(e) ==
  CASE e.k = "join"   -> {}
    [] e.k = "leave"  -> {}
    [] e.k = "attr"   -> {}
    [] e.k = "state"  -> {}
    [] e.k = "link"   -> {}
    [] e.k = "cut"    -> {}
    [] e.k = "res"    -> ResultBad(F(e.f), e.res)
    [] e.k = "count"  -> CountBad(F(e.f), e.n)
    [] e.k = "one"    -> OneBad(F(e.f), e.res)
    [] e.k = "member" -> MemberBad(e.a, e.yes)
    [] e.k = "same"   -> SameBad(e.args, Pairs(e.p))
    [] OTHER -> {"unexpected-" \o e.k}

EvDo(e) ==
  \/ e.k = "join"   /\ Join(e.a, Rec(e.rec))
  \/ e.k = "leave"  /\ Leave(e.a, e.w)
  \/ e.k = "attr"   /\ SetAttr(e.a, e.n, e.v)
  \/ e.k = "state"  /\ SetState(e.a, e.s)
  \/ e.k = "link"   /\ Link(e.u, e.v)
  \/ e.k = "cut"    /\ Cut(e.u, e.v)
  \/ e.k \in {"res", "count", "one", "member", "same"} /\ UNCHANGED vars

TInit == /\ tid \in 1..Len(Traces)
         /\ QInit /\ directed = Cfg.directed
         /\ l = 1 /\ ok = TRUE

Accept == /\ ok /\ l = Len(Ev) + 1
          /\ PrintT(<<"VERDICT", Traces[tid].id, "ACCEPT", l, {}>>)
          /\ ok' = FALSE /\ UNCHANGED <<vars, tid, l>>
Reject == /\ ok /\ l <= Len(Ev) /\ EvBad(Ev[l]) # {}
          /\ PrintT(<<"VERDICT", Traces[tid].id, "REJECT", l, EvBad(Ev[l])>>)
          /\ ok' = FALSE /\ UNCHANGED <<vars, tid, l>>
Match  == /\ ok /\ l <= Len(Ev) /\ EvBad(Ev[l]) = {}
          /\ EvDo(Ev[l]) /\ l' = l + 1 /\ UNCHANGED <<tid, ok>>

TNext == Accept \/ Reject \/ Match
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
