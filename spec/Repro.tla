------------------------------- MODULE Repro -------------------------------
(* Reproducibility: the history of an iteration is a function of the seed, the
   parameters and the number of the iteration, whatever the context is (process,
   order, other runs, exporters), and different seeds or iterations use different
   random sequences (soil/simulation.py: _get_env; soil/environment.py).       *)
EXTENDS Kit

VARIABLES
  seen,     \* <<seed, parameters, iteration>> -> digest of its history
  rands     \* <<seed, iteration>> -> digests of its random sequences (one for each set of parameters, at most)
vars == <<seen, rands>>

PInit == seen = <<>> /\ rands = <<>>

\* An iteration has been run: h is the digest of its history, r that of the first numbers it draws
RanBad(s, p, i, h, r) ==
  If(<<s, p, i>> \in DOMAIN seen /\ seen[<<s, p, i>>] # h, "same-seed-parameters-and-iteration-but-another-history") \cup
  If(\E k \in DOMAIN rands : k # <<s, i>> /\ r \in rands[k], "two-iterations-with-the-same-random-sequence")
Ran(s, p, i, h, r) ==
  /\ RanBad(s, p, i, h, r) = {}
  /\ seen' = Put(seen, <<s, p, i>>, h)
  /\ rands' = Put(rands, <<s, i>>, {r} \cup (IF <<s, i>> \in DOMAIN rands THEN rands[<<s, i>>] ELSE {}))
-----------------------------------------------------------------------------
CONSTANTS Seeds, Params, Iters
\* Contexts are not part of the state: any of them may run any iteration at any time
MCNext == \E s \in Seeds, p \in Params, i \in Iters, h \in Params, r \in (1..(Cardinality(Seeds) * Cardinality(Iters))) : Ran(s, p, i, h, r)
MCSpec == PInit /\ [][MCNext]_vars
Injective == \A k, l \in DOMAIN rands : k # l => rands[k] \cap rands[l] = {}
Stable == [][\A k \in DOMAIN seen : k \in DOMAIN seen' /\ seen'[k] = seen[k]]_vars
=============================================================================
