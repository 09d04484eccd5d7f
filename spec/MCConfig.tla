------------------------------ MODULE MCConfig ------------------------------
(* Names of classes in modules that may hide each other; simulations that are
   dumped and loaded; small templates.                                         *)
EXTENDS Config
CONSTANTS Mods, Xs, Classes, Sims, MaxOps
VARIABLE ops
mvars == <<vars, ops>>
Fields == {{<<"a", v>>, <<"b", w>>} : v, w \in {"int:1", "str:1"}}
Ts == {[lists |-> l, bounds |-> b, samples |-> s, fixed |-> f] :
        l \in {<<>>, <<<<"x", {"1", "2"}>>>>, <<<<"x", {"1", "2"}>>, <<"y", {"3"}>>>>},
        b \in {<<>>, <<"p">>, <<"p", "q">>}, s \in {<<>>, <<<<"5", "6">>>>, <<<<"5", "6">>, <<"5", "8">>>>},
        f \in {{}, {<<"z", "0">>}}}
MCInit == \E kn \in {<<>>} \cup {<<m>> : m \in Mods} \cup {<<m, n>> : m, n \in Mods} : ConInit(kn) /\ ops = 0
MCTemplates == ops \in {0, -1} /\ ops' = ops - 1 /\ \E t \in Ts : Template(t)
MCOps ==  /\ ops >= 0 /\ ops < MaxOps /\ ops' = ops + 1
          /\ tm = <<>>
          /\ \/ \E m \in Mods, x \in Xs, c \in Classes : (\A k \in DOMAIN defs : \A y \in DOMAIN defs[k] : defs[k][y] # c) /\ Define(m, x, c)
             \/ \E i \in Sims \ DOMAIN sims, f \in Fields : Make(i, f)
             \/ \E i \in DOMAIN sims, d \in Sims : Dump(i, d)
             \/ \E d \in DOMAIN docs, i \in Sims \ DOMAIN sims : \E o \in {{}, {<<"a", "int:2">>}} :
                  LoadBad(d, o, Override(docs[d], o)) = {} /\ Make(i, Override(docs[d], o))
             \/ \E i \in DOMAIN sims : ResultsBad(i, i) = {} /\ Results(i, i)
MCNext == MCOps \/ MCTemplates
MCSpec == MCInit /\ [][MCNext]_mvars

\* The name that a class is given leads back to it
RoundTrip == \A m \in DOMAIN defs : \A x \in DOMAIN defs[m] : Resolve(NameOf(m, x)) = defs[m][x] /\ NameBad(defs[m][x], NameOf(m, x)) = {}
\* ... and no two classes get the same one
Unambiguous == \A m, n \in DOMAIN defs : \A x \in DOMAIN defs[m], y \in DOMAIN defs[n] :
                 NameOf(m, x) = NameOf(n, y) => defs[m][x] = defs[n][y]
Documents == \A d \in DOMAIN docs : \A f \in Fields : LoadBad(d, {}, f) = {} <=> f = docs[d]
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET e == CHOOSE e \in S : TRUE IN <<Expected(e)>> \o SeqOf(S \ {e})
Expands == LET rs == SeqOf(Expansions) IN
  /\ ExpandBad(rs) = {}
  /\ rs # <<>> => ExpandBad(Tail(rs)) # {} /\ ExpandBad(<<rs[1]>> \o rs) # {}
  /\ Len(rs) = SumSeq([k \in DOMAIN tm |-> Len(tm[k].samples) * Cardinality(Choices(tm[k].lists))])
=============================================================================
