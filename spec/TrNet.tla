------------------------------ MODULE TrNet ------------------------------
(* Validation of the traces of harness/drv_net.py against Net. *)
EXTENDS Net, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)

VARIABLES tid, l, ok
tvars == <<vars, tid, l, ok>>

Cfg == Traces[tid].cfg
Ev == Traces[tid].ev

Pairs(q) == {<<q[i][1], q[i][2]>> : i \in DOMAIN q}
R(r) == [r EXCEPT !.classes = Rng(@), !.par = Pairs(@)]
M(made) == [i \in DOMAIN made |-> [made[i] EXCEPT !.par = Pairs(@)]]
S(e) == [nodes |-> Rng(e.nodes), edges |-> Pairs(e.edges), ref |-> Pairs(e.ref), at |-> Pairs(e.at), live |-> Pairs(e.live), n |-> e.n, net |-> e.net]
\* One agent per node of a network that has none
RefusedBad(what) == If(nodes # {}, "creation-refused")

EvBad(e) ==
  CASE e.k = "add"      -> AddBad(R(e.r), M(e.made))
    [] e.k = "populate" -> PopulateBad(R(e.r), M(e.made))
    [] e.k = "die"      -> DieBad(e.a)
    [] e.k = "unode"    -> {}
    [] e.k = "uedge"    -> {}
    [] e.k = "ucut"     -> {}
    [] e.k = "udrop"    -> {}
    [] e.k = "link"     -> {}
    [] e.k = "snap"     -> SnapBad(S(e))
    [] e.k = "refused"  -> RefusedBad(e.what)
    [] e.k = "lost"     -> LostBad(e.a, e.n)
    [] e.k = "within"   -> WithinBad(e.ok)
    [] e.k = "named"    -> NamedBad(Pairs(e.want))
    [] OTHER -> {"unexpected-" \o e.k}

EvDo(e) ==
  \/ e.k = "add"      /\ Add(R(e.r), M(e.made))
  \/ e.k = "populate" /\ Populate(R(e.r), M(e.made))
  \/ e.k = "die"      /\ Die(e.a, e.rm)
  \/ e.k = "unode"    /\ UserNode(e.n)
  \/ e.k = "uedge"    /\ UserEdge(e.u, e.v)
  \/ e.k = "ucut"     /\ UserCut(e.u, e.v)
  \/ e.k = "udrop"    /\ UserDrop(e.n)
  \/ e.k = "link"     /\ Link(e.a, e.b)
  \/ e.k \in {"snap", "refused", "within", "lost", "named"} /\ UNCHANGED vars

TInit == /\ tid \in 1..Len(Traces)
         /\ NInit(Rng(Cfg.nodes), Pairs(Cfg.edges))
         /\ l = 1 /\ ok = TRUE

Accept == /\ ok /\ l = Len(Ev) + 1
          /\ PrintT(<<"VERDICT", Traces[tid].id, "ACCEPT", l, {}>>)
          /\ ok' = FALSE /\ UNCHANGED <<vars, tid, l>>
Reject == /\ ok /\ l <= Len(Ev) /\ EvBad(Ev[l]) # {}
          /\ PrintT(<<"VERDICT", Traces[tid].id, "REJECT", l, EvBad(Ev[l])>>)
          /\ ok' = FALSE /\ UNCHANGED <<vars, tid, l>>
Match  == /\ ok /\ l <= Len(Ev) /\ EvBad(Ev[l]) = {}
          /\ EvDo(Ev[l]) /\ l' = l + 1 /\ UNCHANGED <<tid, ok>>

TNext == Accept \/ Reject \/ Match
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
