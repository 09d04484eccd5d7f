-------------------------------- MODULE Net --------------------------------
(* The network, its nodes and the agents in them (soil/environment.py,
   NetworkEnvironment; soil/agents/network_agents.py), and the creation of
   agents.                                                                    *)
EXTENDS Kit

VARIABLES
  nodes,    \* set of nodes
  edges,    \* set of edges: pairs of nodes, in both directions
  at,       \* network agent in the schedule -> its node
  held,     \* nodes left behind by agents that died: nothing is said about their content
  live,     \* agent in the schedule -> its class
  ever      \* every id that has been used
vars == <<nodes, edges, at, held, live, ever>>

Sym(E) == E \cup {<<e[2], e[1]>> : e \in E}

NInit(ns, es) == /\ nodes = ns /\ edges = Sym(es) /\ at = <<>> /\ held = {}
                 /\ live = <<>> /\ ever = {}

Free == nodes \ (Rng(at) \cup held)

(* A creation is described by what is asked for,
     r = [k: how many agents, all: one for each node, node: given node or "", uid: given id or None,
          classes: set of classes with a positive weight, par: set of parameters <<name, value>>,
          fill: parents populate the network, instead of creating just one agent]
   and by the agents that result, a sequence of
     [a: id, cls: class, net: it is a network agent, n: node or "", par: set of <<name, value>>, kid: BOOLEAN]
   Kids are the agents that others create in their init method.              *)
MadeNodes(made) == {made[i].n : i \in {j \in DOMAIN made : made[j].net}}
Own(made) == SelectSeq(made, LAMBDA x : ~x.kid)
Kids(made) == SelectSeq(made, LAMBDA x : x.kid)
NetOf(made) == SelectSeq(made, LAMBDA x : x.net)

IdsBad(r, made) ==
  If(Cardinality({made[i].a : i \in DOMAIN made}) # Len(made), "two-agents-with-the-same-id") \cup
  (IF r.uid # None THEN If(Len(made) > 0 /\ made[1].a # r.uid, "given-id-is-not-kept")
   ELSE {}) \cup
  If(\E i \in DOMAIN made : made[i].a \in ever /\ ~(r.uid # None /\ i = 1), "id-used-before")

NodesBad(made) ==
  If(\E i \in DOMAIN made : made[i].net /\ made[i].n = "", "network-agent-without-node") \cup
  If(Cardinality(MadeNodes(made)) # Len(NetOf(made)), "two-agents-in-the-same-node") \cup
  If(MadeNodes(made) \cap Rng(at) # {}, "node-taken-from-another-agent")

CommonBad(r, made) ==
  IdsBad(r, made) \cup NodesBad(made) \cup
  If(\E i \in DOMAIN made : ~made[i].kid /\ made[i].cls \notin r.classes, "class-not-requested") \cup
  If(\E i \in DOMAIN made : ~made[i].kid /\ ~(r.par \subseteq made[i].par), "parameters-not-given-to-the-agent") \cup
  LET parents == Len(SelectSeq(Own(made), LAMBDA x : x.cls = "Parent")) IN
  IF r.fill
  THEN If(parents > 0 /\ ~(Free \subseteq MadeNodes(made)), "node-without-agent-after-populating") \cup
       If(MadeNodes(Kids(made)) \ (Free \cup held) # {}, "populating-changes-the-nodes")
  ELSE If(Len(Kids(made)) # parents, "wrong-number-of-agents")

\* add_agent, add_agents, add_node
AddBad(r, made) ==
  CommonBad(r, made) \cup
  If(Len(Own(made)) # (IF r.all THEN Cardinality(nodes) ELSE r.k), "wrong-number-of-agents") \cup
  If(r.node # "" /\ Len(made) > 0 /\ made[1].n # r.node, "not-in-the-given-node") \cup
  If(r.node = "" /\ MadeNodes(made) \ nodes # {} /\ ~(Free \subseteq MadeNodes(made)), "node-added-while-others-are-free")

Created(made) ==
  LET N == NetOf(made) IN
  /\ nodes' = nodes \cup MadeNodes(made)
  /\ at' = [a \in {N[i].a : i \in DOMAIN N} |-> N[CHOOSE i \in DOMAIN N : N[i].a = a].n] @@ at
  /\ held' = held \ MadeNodes(made)
  /\ live' = [a \in {made[i].a : i \in DOMAIN made} |-> made[CHOOSE i \in DOMAIN made : made[i].a = a].cls] @@ live
  /\ ever' = ever \cup {made[i].a : i \in DOMAIN made}
  /\ UNCHANGED edges
Add(r, made) == AddBad(r, made) = {} /\ Created(made)

\* populate_network
PopulateBad(r, made) ==
  CommonBad(r, made) \cup
  If(~(Free \subseteq MadeNodes(Own(made))), "node-without-agent-after-populating") \cup
  If(~(MadeNodes(Own(made)) \subseteq Free \cup held), "populating-changes-the-nodes")
Populate(r, made) == PopulateBad(r, made) = {} /\ Created(made)

\* a dies, with or without its node
DieBad(a) == If(a \notin DOMAIN live, "unknown-agent-dies")
Die(a, remove) ==
  /\ DieBad(a) = {}
  /\ LET gone == IF a \in DOMAIN at /\ remove THEN {at[a]} ELSE {} IN
       /\ nodes' = nodes \ gone
       /\ edges' = {e \in edges : e[1] \notin gone /\ e[2] \notin gone}
       /\ held' = IF a \in DOMAIN at /\ ~remove THEN held \cup {at[a]} ELSE held
  /\ at' = Drop(at, {a}) /\ live' = Drop(live, {a})
  /\ UNCHANGED ever

\* The node of an agent whose node has been removed
LostBad(a, n) == If(n # "", "dead-agent-keeps-its-node")

\* Changes to the network made by the user
UserNode(n) == nodes' = nodes \cup {n} /\ UNCHANGED <<edges, at, held, live, ever>>
UserEdge(u, v) == edges' = edges \cup {<<u, v>>, <<v, u>>} /\ UNCHANGED <<nodes, at, held, live, ever>>
UserCut(u, v) == edges' = edges \ {<<u, v>>, <<v, u>>} /\ UNCHANGED <<nodes, at, held, live, ever>>
UserDrop(n) == /\ nodes' = nodes \ {n} /\ edges' = {e \in edges : e[1] # n /\ e[2] # n}
               /\ held' = held \ {n} /\ UNCHANGED <<at, live, ever>>
\* and by the agents
Link(a, b) == UserEdge(at[a], at[b])

\* While agents are being created, the network agents are those whose node refers to them
WithinBad(holds) == If(~holds, "network-agent-that-is-not-in-its-node")

\* Nodes that name their agent: want is a set of <<agent, node>>
NamedBad(want) == If(\E p \in want : p[1] \notin DOMAIN at \/ at[p[1]] # p[2], "not-in-the-node-that-names-it")

(* What can be observed:
   s = [nodes, edges, ref: node -> agent (pairs), at: agent -> node (pairs),
        live: agent, class (pairs), net: sequence of the network agents]      *)
SnapBad(s) ==
  LET ref == [n \in {p[1] : p \in s.ref} |-> (CHOOSE p \in s.ref : p[1] = n)[2]] IN
  If(s.nodes # nodes, "nodes-changed") \cup
  If(Sym(s.edges) # edges, "edges-changed") \cup
  If({p[1] : p \in s.at} # DOMAIN at \/ (\E p \in s.at : p[1] \in DOMAIN at /\ p[2] # at[p[1]]), "agent-in-another-node") \cup
  If(\E a \in DOMAIN at : at[a] \notin DOMAIN ref \/ ref[at[a]] # a, "node-does-not-refer-to-its-agent") \cup
  If(\E n \in DOMAIN ref : n \notin Rng(at) \cup held, "free-node-refers-to-an-agent") \cup
  If(Rng(s.net) # DOMAIN at \/ ~NoDup(s.net), "wrong-network-agents") \cup
  If({p[1] : p \in s.live} # DOMAIN live \/ (\E p \in s.live : p[1] \in DOMAIN live /\ p[2] # live[p[1]]), "wrong-population") \cup
  If(Cardinality(s.live) # s.n, "wrong-population")
-----------------------------------------------------------------------------
CONSTANTS Names, Ids
MCInit == \E es \in SUBSET {<<"a", "b">>} : NInit({"a", "b"}, es)
Req == [k |-> 1, all |-> FALSE, node |-> "", uid |-> None, classes |-> {"N"}, par |-> {}, fill |-> FALSE]
One(a, n) == [a |-> a, cls |-> "N", net |-> TRUE, n |-> n, par |-> {}, kid |-> FALSE]
MCAdd == \E a \in Ids, n \in Names : Add(Req, <<One(a, n)>>)
MCAdd2 == \E a, b \in Ids, n, m \in Names : a < b /\ Add([Req EXCEPT !.k = 2], <<One(a, n), One(b, m)>>)
MCAddAt == \E a \in Ids, n \in Free : Add([Req EXCEPT !.node = n], <<One(a, n)>>)
MCParent == \E a, b \in Ids, n, m \in Names : a < b /\
               Add([Req EXCEPT !.classes = {"Parent"}], <<[One(a, n) EXCEPT !.cls = "Parent"], [One(b, m) EXCEPT !.kid = TRUE]>>)
MCPopulate == \/ \E a \in Ids, n \in Names : Populate(Req, <<One(a, n)>>)
              \/ \E a, b \in Ids, n, m \in Names : a < b /\ Populate(Req, <<One(a, n), One(b, m)>>)
MCDie == \E a \in DOMAIN live, r \in BOOLEAN : Die(a, r)
MCUser == \/ \E n \in Names \ nodes : UserNode(n)
          \/ \E n \in Free : UserDrop(n)
          \/ \E u, v \in nodes : u # v /\ (UserEdge(u, v) \/ UserCut(u, v))
MCLink == \E a, b \in DOMAIN at : a # b /\ Link(a, b)
MCNext == MCAdd \/ MCAdd2 \/ MCAddAt \/ MCParent \/ MCPopulate \/ MCDie \/ MCUser \/ MCLink
MCSpec == MCInit /\ [][MCNext]_vars

\* C10: one node per agent, one agent per node
OneToOne == \A a, b \in DOMAIN at : a # b => at[a] # at[b]
InNetwork == Rng(at) \subseteq nodes
EdgesInNetwork == \A e \in edges : e[1] \in nodes /\ e[2] \in nodes
Population == DOMAIN at \subseteq DOMAIN live /\ DOMAIN live \subseteq ever
\* Agents never move
NoMoves == [][\A a \in DOMAIN at \cap DOMAIN at' : at'[a] = at[a]]_vars
\* C12: ids are not used again
FreshIds == [][\A a \in DOMAIN live' \ DOMAIN live : a \notin ever]_vars
=============================================================================
