------------------------------- MODULE MCDict -------------------------------
EXTENDS Dict
CONSTANTS Agents, Envs, Names, Values
Init == DInit
Next == \/ \E e \in Envs : e \notin DOMAIN own /\ \E c \in {<<>>, [k |-> "v"]} : NewEnv(e, <<>>, c)
        \/ \E a \in Agents, e \in DOMAIN order, v \in Values : a \notin DOMAIN own /\ NewAgent(a, e, "p" :> v, "prop" :> v)
        \/ \E a \in DOMAIN env : a \in Rng(order[env[a]]) /\ Die(a)
        \/ \E o \in DOMAIN own, n \in Names, v \in Values : Set(o, n, v) \/ SetDefault(o, n, v)
        \/ \E o \in DOMAIN own, n \in Names : Del(o, n)
MCSpec == Init /\ [][Next]_vars
\* An operation changes at most one object, and at most one of its names
Isolated == [][\A o \in DOMAIN own : own'[o] # own[o] =>
                 /\ \A q \in DOMAIN own \ {o} : own'[q] = own[q]
                 /\ \E n \in Names : Drop(own'[o], {n}) = Drop(own[o], {n})]_vars
\* What can be listed can be read with all of the forms, and what is deleted cannot
Agree == \A o \in DOMAIN own : \A n \in Names :
           /\ n \in Listed(o) => /\ LookBad(o, n, "item", own[o][n], "d") = {} /\ LookBad(o, n, "get", own[o][n], "d") = {}
                                 /\ LookBad(o, n, "in", "yes", "d") = {}
           /\ ~Has(o, n) => LookBad(o, n, "item", "error", "d") = {} /\ LookBad(o, n, "in", "no", "d") = {}
           /\ Hidden(n) => n \notin Listed(o)
Members == \A e \in DOMAIN order : NoDup(order[e]) /\ \A a \in Rng(order[e]) : env[a] = e
=============================================================================
