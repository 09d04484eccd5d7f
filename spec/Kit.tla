-------------------------------- MODULE Kit --------------------------------
(* Shared vocabulary of the specification.

   Every component of the system is specified as a set of named actions.  The
   guard of an action A is written as a set of *named clauses*: ABad(args) is
   the set of names of the clauses that would be violated if A(args) happened
   now, and A is enabled exactly when that set is empty.  The same operators
   serve the exhaustive configurations (MC*.tla), the generators of behaviours
   (Gen*.tla) and the validation of traces of the implementation (Tr*.tla),
   which uses the name of the clause in its verdict.

   Times are integers (the drivers log every time multiplied by 4), Inf stands
   for "never", and None for an argument that is not given.                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Inf  == 100000000
None == -1
OffGrid == -999     \* a time that is not a multiple of a quarter, or NaN

If(b, name) == IF b THEN {name} ELSE {}

Rng(f) == {f[x] : x \in DOMAIN f}

SetMin(S) == CHOOSE x \in S : \A y \in S : x <= y
SetMax(S) == CHOOSE x \in S : \A y \in S : x >= y

\* f without the elements of S in its domain
Drop(f, S) == [x \in DOMAIN f \ S |-> f[x]]
\* f with x mapped to v
Put(f, x, v) == (x :> v) @@ f

RECURSIVE SumSeq(_)
SumSeq(q) == IF q = <<>> THEN 0 ELSE Head(q) + SumSeq(Tail(q))

\* Sequence of the elements of q that satisfy P, in order
Keep(q, P(_)) == SelectSeq(q, P)

IsPermOf(p, q) == /\ Len(p) = Len(q)
                  /\ \A x \in Rng(p) \cup Rng(q) :
                        Cardinality({i \in DOMAIN p : p[i] = x}) =
                        Cardinality({i \in DOMAIN q : q[i] = x})

NoDup(q) == Cardinality(Rng(q)) = Len(q)
============================================================================
