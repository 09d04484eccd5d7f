------------------------------- MODULE Query -------------------------------
(* Queries of agents (soil/agents/__init__.py, filter_agents and AgentView;
   soil/agents/network_agents.py; soil/environment.py).

   An agent is [isa: set of classes it belongs to, st: state id or "",
                at: attributes (function), n: node or ""].
   A filter is a record with sequences of at most one element (empty: the filter
   is not given):
     ids: <<set of ids>>, sts: <<set of state ids>>, cls: <<set of classes>>,
     ats: set of <<name, set of values>>, lim: <<number>>, nb: <<agent>>.      *)
EXTENDS Kit

VARIABLES pop, edges, directed
vars == <<pop, edges, directed>>

QInit == pop = <<>> /\ edges = {} /\ directed \in BOOLEAN

Join(a, rec) == pop' = Put(pop, a, rec) /\ UNCHANGED <<edges, directed>>
Leave(a, withnode) ==
  /\ edges' = IF withnode THEN {e \in edges : pop[a].n \notin {e[1], e[2]}} ELSE edges
  /\ pop' = Drop(pop, {a})
  /\ UNCHANGED directed
SetAttr(a, k, v) == pop' = [pop EXCEPT ![a].at = Put(@, k, v)] /\ UNCHANGED <<edges, directed>>
SetState(a, s) == pop' = [pop EXCEPT ![a].st = s] /\ UNCHANGED <<edges, directed>>
\* In a directed network an edge makes its target a neighbor of its source
Ends(u, v) == {<<u, v>>} \cup (IF directed THEN {} ELSE {<<v, u>>})
Link(u, v) == edges' = edges \cup Ends(u, v) /\ UNCHANGED <<pop, directed>>
Cut(u, v) == edges' = edges \ Ends(u, v) /\ UNCHANGED <<pop, directed>>

Neighbor(a, b) == pop[a].n # "" /\ pop[b].n # "" /\ <<pop[a].n, pop[b].n>> \in edges

Satisfies(a, f) ==
  /\ f.ids = <<>> \/ a \in f.ids[1]
  /\ f.sts = <<>> \/ pop[a].st \in f.sts[1]
  /\ f.cls = <<>> \/ pop[a].isa \cap f.cls[1] # {}
  /\ \A c \in f.ats : c[1] \in DOMAIN pop[a].at /\ pop[a].at[c[1]] \in c[2]
  /\ f.nb = <<>> \/ Neighbor(f.nb[1], a)
Matching(f) == {a \in DOMAIN pop : Satisfies(a, f)}
Size(f) == LET n == Cardinality(Matching(f)) IN IF f.lim = <<>> THEN n ELSE IF f.lim[1] < n THEN f.lim[1] ELSE n

\* The query returned the agents in the sequence res
ResultBad(f, res) ==
  If(~NoDup(res), "agent-returned-twice") \cup
  If(~(Rng(res) \subseteq DOMAIN pop), "agent-not-in-the-schedule") \cup
  If(\E a \in Rng(res) \cap DOMAIN pop : ~Satisfies(a, f), "agent-does-not-satisfy-the-filters") \cup
  If(Cardinality(Rng(res)) < Size(f), "matching-agent-missing") \cup
  If(f.lim # <<>> /\ Len(res) > f.lim[1], "limit-exceeded")
CountBad(f, n) == If(n # Size(f), "wrong-count")
\* The query for one agent: it may be any of them, and fails if there is none
OneBad(f, res) ==
  If(res = <<>> /\ Size(f) > 0, "matching-agent-missing") \cup
  If(res # <<>> /\ (res[1] \notin DOMAIN pop \/ ~Satisfies(res[1], f)), "agent-does-not-satisfy-the-filters")
\* Membership and look up by id
MemberBad(a, yes) == If(yes # (a \in DOMAIN pop), "wrong-membership")
\* Queries modify nothing: neither their arguments nor the agents
SameBad(args, p) ==
  If(~args, "query-modifies-its-arguments") \cup
  If(\E q \in p : q[1] \notin DOMAIN pop \/ (pop[q[1]].st # q[2] /\ pop[q[1]].st # ""), "query-modifies-the-agents") \cup
  If({q[1] : q \in p} # DOMAIN pop, "query-modifies-the-agents")
-----------------------------------------------------------------------------
CONSTANTS Agents, Nodes
Recs == {[isa |-> c, st |-> p[1], at |-> p[2], n |-> n] : c \in {{"A"}, {"A", "B"}}, p \in {<<"", <<>>>>, <<"s", [x |-> 1]>>, <<"s", [x |-> 3]>>}, n \in Nodes \cup {""}}
Filters == [ids : {<<>>, <<{}>>, <<{0}>>, <<{0, 1}>>}, sts : {<<>>, <<{"s"}>>}, cls : {<<>>, <<{"B"}>>, <<{"A", "B"}>>},
            ats : {{}, {<<"x", {1, 2}>>}}, lim : {<<>>, <<1>>}, nb : {<<>>} \cup {<<a>> : a \in DOMAIN pop}]
MCInit == QInit
MCNext == \/ \E a \in Agents \ DOMAIN pop, r \in Recs : (\A b \in DOMAIN pop : pop[b].n # r.n \/ r.n = "") /\ Join(a, r)
          \/ \E a \in DOMAIN pop, w \in BOOLEAN : Leave(a, w)
          \/ \E u, v \in Nodes : Link(u, v) \/ Cut(u, v)
MCSpec == MCInit /\ [][MCNext]_vars
None0 == [ids |-> <<>>, sts |-> <<>>, cls |-> <<>>, ats |-> {}, lim |-> <<>>, nb |-> <<>>]
\* Every filter restricts the result, and no filter gives everybody
Laws == /\ Matching(None0) = DOMAIN pop
        /\ Cardinality(edges) <= 3 => \A f \in Filters :
             /\ Matching(f) = {a \in DOMAIN pop : a \in Matching([None0 EXCEPT !.ids = f.ids])} \cap Matching([None0 EXCEPT !.sts = f.sts])
                           \cap Matching([None0 EXCEPT !.cls = f.cls]) \cap Matching([None0 EXCEPT !.ats = f.ats]) \cap Matching([None0 EXCEPT !.nb = f.nb])
             /\ Size(f) <= Cardinality(Matching(f))
Symmetric == ~directed => \A a, b \in DOMAIN pop : Neighbor(a, b) => Neighbor(b, a)
=============================================================================
