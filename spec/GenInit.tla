------------------------------ MODULE GenInit ------------------------------
(* Where the initial value of an attribute may come from: which classes of a chain
   declare it (and how), the model and the arguments.                          *)
EXTENDS Integers, Sequences, TLC, Json
VARIABLE h
Decl == {"no", "attr", "dict", "none"}
GInit == h = "start"
GNext == /\ h = "start" /\ h' = "end"
         /\ \A a, b, c \in Decl, m \in {"no", "none", "yes", "class"}, g \in {"no", "none", "yes"} :
               PrintT("SCEN " \o ToJson([decl |-> <<a, b, c>>, model |-> m, arg |-> g]))
GSpec == GInit /\ [][GNext]_h
=============================================================================
