------------------------------- MODULE MCLog --------------------------------
EXTENDS Log
CONSTANTS Depth, Levels
Chain == <<"soil", "sim", "env", "agent", "other">>
Parent(i) == IF i = 5 THEN "env" ELSE Chain[i - 1]
MCNext == \/ \E i \in 2..Depth, v \in Levels \cup {0} : Chain[i] \notin DOMAIN up /\ Parent(i) \in DOMAIN up /\ Add(Chain[i], Parent(i), v)
          \/ \E x \in DOMAIN up, v \in Levels : SetLevel(x, v)
          \/ \E x \in DOMAIN up \ {"soil"} : SetLevel(x, 0)
          \/ Ran("s", "d")
MCSpec == LInit /\ [][MCNext]_vars
\* A message appears or not, but not both, and a level that is enabled enables those above it
Decided == \A x \in DOMAIN up : \A v \in Levels :
             LET m == <<[v |-> v, own |-> TRUE, t |-> TRUE, text |-> TRUE]>>
             IN /\ (SayBad(x, v, m) = {}) # (SayBad(x, v, <<>>) = {})
                /\ \A w \in Levels : v <= w /\ SayBad(x, v, m) = {} => SayBad(x, w, <<>>) # {}
\* Changing a level affects that logger and those inside
RECURSIVE Inside(_, _)
Inside(x, y) == x = y \/ (x # "" /\ up[x] # "" /\ Inside(up[x], y))
Local == [][\A y \in DOMAIN up : level'[y] # level[y] =>
              \A x \in DOMAIN up : ~Inside(x, y) => \A v \in Levels : (SayBad(x, v, <<>>) = {}) = (SayBad(x, v, <<>>)' = {})]_vars
=============================================================================
