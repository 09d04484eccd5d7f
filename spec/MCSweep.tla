------------------------------ MODULE MCSweep ------------------------------
(* Every simulation with a few keys, values and iterations, in any order. *)
EXTENDS Sweep

CONSTANTS Keys, Values, MaxIters, Exporters, MaxRuns
MCParams == {p \in SUBSET (Keys \X Values) : \A x, y \in p : x[1] = y[1] => x = y}
MCMatrix == {<<>>} \cup {<< <<k, vs>> >> : k \in Keys, vs \in SUBSET Values}
  \cup {<< <<k, vs>>, <<l, ws>> >> : k \in Keys, l \in Keys, vs \in SUBSET Values, ws \in SUBSET Values}
\* Identifiers: any injective function will do
Fresh == Cardinality(DOMAIN ids) + 1
Env == Cardinality(DOMAIN made) + 1
VARIABLE left
MCInit == WInit /\ left = MaxRuns
MCBegin == /\ ~run.on /\ left > 0 /\ left' = left - 1
           /\ \E f \in MCParams, m \in MCMatrix, n \in 0..MaxIters, x \in SUBSET Exporters :
                 (Len(m) = 2 => m[1][1] # m[2][1]) /\ Begin(f, m, n, x, {}, {})
MCRest == /\ run.on /\ UNCHANGED left
          /\ \/ \E x \in run.exps : Start(x) \/ End(x)
             \/ \E c \in run.combs, i \in 0..(run.n - 1) : (\A f \in DOMAIN made : made[f] # [c |-> c, i |-> i]) /\ Make(c, i, Env)
             \/ \E x \in run.exps, e \in DOMAIN made :
                  LET c == made[e].c IN Tell(x, e, c, made[e].i, IF c \in DOMAIN ids THEN ids[c] ELSE Fresh, TRUE)
             \/ Return([j \in 1..Cardinality(DOMAIN made) |-> [e |-> j, c |-> made[j].c, i |-> made[j].i, cols |-> {}]])
MCNext == MCBegin \/ MCRest
MCSpec == MCInit /\ [][MCNext]_<<vars, left>>
MCFair == MCSpec /\ WF_<<vars, left>>(MCRest)

\* Each combination and iteration is run once, at most
Once == \A e, f \in DOMAIN made : made[e] = made[f] => e = f
\* The number of combinations is the product of the numbers of values
OwnValues == \A c \in run.combs : \A x, y \in c : x[1] = y[1] => x = y
\* When the run is over, everything was run and every exporter knows everything
Complete == (run.on /\ run.exps # {} /\ ended = run.exps) =>
  /\ {made[e] : e \in DOMAIN made} = {[c |-> c, i |-> i] : c \in run.combs, i \in 0..(run.n - 1)}
  /\ \A x \in run.exps : told[x] = DOMAIN made
UniqueIds == \A c, d \in DOMAIN ids : ids[c] = ids[d] => c = d
Stable == [][\A c \in DOMAIN ids : c \in DOMAIN ids' /\ ids'[c] = ids[c]]_vars
\* Every run ends
Finishes == [](run.on => <>~run.on)
=============================================================================
