------------------------------ MODULE GenSweep ------------------------------
(* All the shapes of a sweep: which parameters are fixed, the number of values of
   each key of the matrix (and their order), and the number of iterations.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Keys, MaxValues, MaxIters, MaxRows
VARIABLE h
Seqs(n) == UNION {[1..k -> Keys \X (0..MaxValues)] : k \in 0..n}
Shapes == {m \in Seqs(MaxRows) : \A i, j \in DOMAIN m : i # j => m[i][1] # m[j][1]}
GInit == h = "start"
GNext == /\ h = "start" /\ h' = "end"
         /\ \A f \in SUBSET Keys, m \in Shapes, n \in 0..MaxIters : PrintT("SCEN " \o ToJson([fixed |-> f, matrix |-> m, n |-> n]))
GSpec == GInit /\ [][GNext]_h
=============================================================================
