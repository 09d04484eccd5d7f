------------------------------- MODULE Params -------------------------------
(* The combinations of parameters that a simulation describes. *)
EXTENDS Kit

(* Parameters are sets of pairs <<name, value>>.  A matrix is a sequence of
   pairs <<name, set of values>>, with different names.                        *)
Names(p) == {q[1] : q \in p}
Override(p, q) == {x \in p : x[1] \notin Names(q)} \cup q
RECURSIVE Choices(_)
Choices(m) ==
  IF m = <<>> THEN {{}}
  ELSE {c \cup {<<m[1][1], v>>} : c \in Choices(Tail(m)), v \in m[1][2]}
Combinations(fixed, m) == {Override(fixed, c) : c \in Choices(m)}
=============================================================================
