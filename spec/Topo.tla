-------------------------------- MODULE Topo --------------------------------
(* The network of an environment (soil/network.py, create_network), the part of it
   that an agent sees (subgraph) and spatial search (agents/geo.py).

   Nodes have a set of attributes <<name, value>> and maybe a position.  Links are
   triples <<u, v, key>> with their attributes; the network may be directed or not,
   and it may have several links between the same nodes (with different keys).   *)
EXTENDS Kit

VARIABLES
  dir,     \* directed
  multi,   \* with parallel links
  nodes,   \* node -> attributes
  pos,     \* node -> <<x, y>> or <<x, y, z>>
  links,   \* <<u, v, key>> -> attributes
  at       \* agent -> [n: node (or None), isa: classes, v: value of an attribute]
vars == <<dir, multi, nodes, pos, links, at>>

TopInit == dir = FALSE /\ multi = FALSE /\ nodes = <<>> /\ pos = <<>> /\ links = <<>> /\ at = <<>>

\* The same link, in the other direction
Flip(l) == <<l[2], l[1], l[3]>>
Between(u, v) == {l \in DOMAIN links : (l[1] = u /\ l[2] = v) \/ (~dir /\ l[1] = v /\ l[2] = u)}
Linked(u, v) == Between(u, v) # {}

(* ---- Descriptions *)
Describe(d, m, ns, ps, ls) == dir' = d /\ multi' = m /\ nodes' = ns /\ pos' = ps /\ links' = ls /\ at' = <<>>
\* A generator was given parameters p, and called with q and maybe a seed
CalledBad(p, q, takes, seeded) ==
  If(p # q, "generator-called-with-other-parameters") \cup
  If(takes /\ ~seeded, "generator-called-without-the-seed") \cup
  If(~takes /\ seeded, "generator-called-with-a-seed")
\* The network has nodes ns and links ls
Match_(ls, l) == l \in DOMAIN ls \/ (~dir /\ Flip(l) \in DOMAIN ls)
Attrs(ls, l) == IF l \in DOMAIN ls THEN ls[l] ELSE ls[Flip(l)]
NetworkBad(d, m, ns, ls) ==
  If(d # dir \/ m # multi, "another-kind-of-network") \cup
  If(DOMAIN ns # DOMAIN nodes, "other-nodes") \cup
  If(DOMAIN ns = DOMAIN nodes /\ ns # nodes, "other-attributes-of-nodes") \cup
  If(\E l \in DOMAIN ls : ~Match_(links, l), "unexpected-link") \cup
  If(\E l \in DOMAIN links : ~Match_(ls, l), "link-missing") \cup
  If(\E l \in DOMAIN ls : Match_(links, l) /\ Attrs(links, l) # ls[l], "other-attributes-of-links")
\* Two networks from the same generator, parameters and seed
TwiceBad(a, b) == If(a # b, "another-network-with-the-same-seed")

\* What is not the description of a network
RefusedBad(yes) == If(~yes, "network-from-something-that-describes-none")

(* ---- Changes *)
Join(a, n, isa, v) == at' = Put(at, a, [n |-> n, isa |-> isa, v |-> v]) /\ UNCHANGED <<dir, multi, nodes, pos, links>>
\* A new node for agent a
Grow(a, n, isa, v) == /\ n \notin DOMAIN nodes /\ nodes' = Put(nodes, n, {})
                      /\ at' = Put(at, a, [n |-> n, isa |-> isa, v |-> v]) /\ UNCHANGED <<dir, multi, pos, links>>
JoinBad(a, n) == If(n \notin DOMAIN nodes, "agent-outside-the-network") \cup If(\E b \in DOMAIN at : at[b].n = n, "agent-in-an-occupied-node")
GrowBad(a, n) == If(n \in DOMAIN nodes, "node-already-in-the-network")
\* Keys are consecutive, as links only disappear with their nodes
Link(a, b) == LET l == <<at[a].n, at[b].n, Cardinality(Between(at[a].n, at[b].n))>> IN
  /\ links' = (IF ~multi /\ l[3] > 0 THEN links ELSE Put(links, l, {}))
  /\ UNCHANGED <<dir, multi, nodes, pos, at>>
\* An agent dies, with its node
Die(a) == LET n == at[a].n IN
  /\ at' = Drop(at, {a})
  /\ nodes' = Drop(nodes, {n}) /\ pos' = Drop(pos, {n}) /\ links' = Drop(links, {l \in DOMAIN links : n \in {l[1], l[2]}})
  /\ UNCHANGED <<dir, multi>>
Set(a, v) == at' = [at EXCEPT ![a].v = v] /\ UNCHANGED <<dir, multi, nodes, pos, links>>
Place(n, p) == pos' = Put(pos, n, p) /\ UNCHANGED <<dir, multi, nodes, links, at>>

(* ---- Views: f is [cls: <<>> or <<class>>, v: <<>> or <<value>>, ids: <<>> or <<agents>>,
                    nb: only neighbors, ctr: with its own node] *)
Fits(a, b, f) ==
  /\ f.cls # <<>> => f.cls[1] \in at[b].isa
  /\ f.v # <<>> => at[b].v = f.v[1]
  /\ f.ids # <<>> => b \in f.ids[1]
  /\ f.nb => Linked(at[a].n, at[b].n)
Seen(a, f) == {at[b].n : b \in {c \in DOMAIN at : Fits(a, c, f)}}
Region(a, f) == Seen(a, f) \cup (IF f.ctr THEN {at[a].n} ELSE {})
Induced(S) == {l \in DOMAIN links : l[1] \in S /\ l[2] \in S}
SubgraphBad(a, f, ns, ls) ==
  If(ns # Region(a, f), "other-nodes-in-the-subgraph") \cup
  If(\E l \in ls : ~(l \in Induced(ns) \/ (~dir /\ Flip(l) \in Induced(ns))), "unexpected-link-in-the-subgraph") \cup
  If(\E l \in Induced(ns) : ~(l \in ls \/ (~dir /\ Flip(l) \in ls)), "link-missing-in-the-subgraph")

\* Radius r is given in halves
\* In two or three dimensions
Dist2(p, q) == LET D[i \in 0..Len(p)] == IF i = 0 THEN 0 ELSE D[i - 1] + (p[i] - q[i]) * (p[i] - q[i]) IN D[Len(p)]
Near(m, n, r) == 4 * Dist2(pos[m], pos[n]) <= r * r
Within(a, r, f) == {n \in Seen(a, f) \cup {at[a].n} : n \in DOMAIN pos /\ Near(at[a].n, n, r) /\ (n = at[a].n => f.ctr)}
SearchBad(a, r, f, res) ==
  If(~NoDup(res), "node-found-twice") \cup
  If(\E n \in Rng(res) : n \notin Within(a, r, f), "node-found-beyond-the-radius") \cup
  If(\E n \in Within(a, r, f) : n \notin Rng(res), "node-not-found")
=============================================================================
