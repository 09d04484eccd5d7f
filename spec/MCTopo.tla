------------------------------- MODULE MCTopo -------------------------------
(* Small networks, with agents that are created, connected, moved and die. *)
EXTENDS Topo
CONSTANTS Ids, Nodes, Coords, MaxOps
VARIABLE ops
mvars == <<vars, ops>>
Filters == [cls : {<<>>, <<"X">>}, v : {<<>>, <<1>>}, ids : {<<>>, <<{1}>>}, nb : BOOLEAN, ctr : BOOLEAN]
Radii == {0, 2, 3}
MCInit == TopInit /\ ops = 0
MCNext ==
  \/ /\ ops = 0 /\ ops' = 1
     /\ \E d, m \in BOOLEAN, L \in SUBSET {l \in Nodes \X Nodes \X {0} : l[1] < l[2]}, c \in [Nodes -> Coords] :
           Describe(d, m, [n \in Nodes |-> {}], [n \in Nodes |-> <<c[n], 0>>], [l \in L |-> {}])
  \/ /\ ops > 0 /\ ops < MaxOps /\ ops' = ops + 1
     /\ \/ \E a \in Ids \ DOMAIN at, n \in DOMAIN nodes, c \in {{"X"}, {"X", "Y"}, {"Z"}} :
             (\A b \in DOMAIN at : at[b].n # n) /\ Join(a, n, c, a % 2)
        \/ \E a, b \in DOMAIN at : Link(a, b)
        \/ \E a \in DOMAIN at : Die(a) \/ Set(a, 1)
MCSpec == MCInit /\ [][MCNext]_mvars

OneEach == \A a, b \in DOMAIN at : at[a].n = at[b].n => a = b
Rooted == \A a \in DOMAIN at : at[a].n \in DOMAIN nodes
LinksInNetwork == \A l \in DOMAIN links : {l[1], l[2]} \subseteq DOMAIN nodes
\* Without parallel links there is one at most between two nodes, and their keys are consecutive
Keys == \A l \in DOMAIN links : LET B == Between(l[1], l[2]) IN (~multi => Cardinality(B) = 1) /\ {k[3] : k \in B} = 0..(Cardinality(B) - 1)
\* A node is found from another if and only if that one is found from it
Symmetric == \A a, b \in DOMAIN at, r \in Radii :
  LET f == [cls |-> <<>>, v |-> <<>>, ids |-> <<>>, nb |-> FALSE, ctr |-> FALSE] IN
  at[b].n \in Within(a, r, f) <=> at[a].n \in Within(b, r, f)
\* A larger radius, or fewer filters, never find less
Monotone == \A a \in DOMAIN at, f \in Filters : \A r, s \in Radii : r <= s => Within(a, r, f) \subseteq Within(a, s, f)
Weaker == \A a \in DOMAIN at, f \in Filters : Region(a, f) \subseteq Region(a, [f EXCEPT !.cls = <<>>]) /\ Region(a, f) \subseteq Region(a, [f EXCEPT !.nb = FALSE, !.ctr = TRUE])
Inside == \A a \in DOMAIN at, f \in Filters : Region(a, f) \subseteq DOMAIN nodes /\ Within(a, 3, f) \subseteq DOMAIN nodes
=============================================================================
