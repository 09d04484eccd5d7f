------------------------------ MODULE TrTopo ------------------------------
(* Validation of the traces of harness/drv_topo.py against Topo. *)
EXTENDS Topo, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)

VARIABLES tid, l, ok
tvars == <<vars, tid, l, ok>>

Cfg == Traces[tid].cfg
Ev == Traces[tid].ev

A(q) == {<<q[i][1], q[i][2]>> : i \in DOMAIN q}
\* Pairs <<key, attributes>>
M(q) == [n \in {q[i][1] : i \in DOMAIN q} |-> A(q[CHOOSE i \in DOMAIN q : q[i][1] = n][2])]
Ps(q) == [n \in {q[i][1] : i \in DOMAIN q} |-> q[CHOOSE i \in DOMAIN q : q[i][1] = n][2]]
Rooted == \A a \in DOMAIN at : at[a].n \in DOMAIN nodes
LinksIn == \A x \in DOMAIN links : {x[1], x[2]} \subseteq DOMAIN nodes
F(f) == [f EXCEPT !.ids = IF @ = <<>> THEN @ ELSE <<Rng(@[1])>>]

EvBad(e) ==
  CASE e.k = "describe" -> {}
    [] e.k = "called"   -> CalledBad(A(e.p), A(e.q), e.takes, e.seeded)
    [] e.k = "network"  -> NetworkBad(e.d, e.m, M(e.ns), M(e.ls)) \cup If(Len(e.ns) # Cardinality(DOMAIN nodes) \/ Len(e.ls) # Cardinality(DOMAIN links), "repeated-nodes-or-links")
    [] e.k = "twice"    -> TwiceBad(e.a, e.b)
    [] e.k = "join"     -> JoinBad(e.a, e.n)
    [] e.k = "grow"     -> GrowBad(e.a, e.n)
    [] e.k = "link"     -> {}
    [] e.k = "die"      -> {}
    [] e.k = "set"      -> {}
    [] e.k = "place"    -> {}
    [] e.k = "subgraph" -> SubgraphBad(e.a, F(e.f), Rng(e.ns), Rng(e.ls))
    [] e.k = "search"   -> SearchBad(e.a, e.r, F(e.f), e.res)
    [] e.k = "refused"  -> RefusedBad(e.yes)
    [] OTHER -> {"unexpected-" \o e.k}

EvDo(e) ==
  \/ e.k = "describe" /\ Describe(e.d, e.m, M(e.ns), Ps(e.ps), M(e.ls))
  \/ e.k = "join"     /\ Join(e.a, e.n, Rng(e.isa), e.v)
  \/ e.k = "grow"     /\ Grow(e.a, e.n, Rng(e.isa), e.v)
  \/ e.k = "link"     /\ Link(e.a, e.b)
  \/ e.k = "die"      /\ Die(e.a)
  \/ e.k = "set"      /\ Set(e.a, e.v)
  \/ e.k = "place"    /\ Place(e.n, e.p)
  \/ e.k \in {"called", "network", "twice", "subgraph", "search", "refused"} /\ UNCHANGED vars

TInit == /\ tid \in 1..Len(Traces)
         /\ TopInit
         /\ l = 1 /\ ok = TRUE

Accept == /\ ok /\ l = Len(Ev) + 1
          /\ PrintT(<<"VERDICT", Traces[tid].id, "ACCEPT", l, {}>>)
          /\ ok' = FALSE /\ UNCHANGED <<vars, tid, l>>
Reject == /\ ok /\ l <= Len(Ev) /\ EvBad(Ev[l]) # {}
          /\ PrintT(<<"VERDICT", Traces[tid].id, "REJECT", l, EvBad(Ev[l])>>)
          /\ ok' = FALSE /\ UNCHANGED <<vars, tid, l>>
Match  == /\ ok /\ l <= Len(Ev) /\ EvBad(Ev[l]) = {}
          /\ EvDo(Ev[l]) /\ l' = l + 1 /\ UNCHANGED <<tid, ok>>

TNext == Accept \/ Reject \/ Match
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
