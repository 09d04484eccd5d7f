------------------------------ MODULE GenFail ------------------------------
(* Points where the code of the user may raise (Fail.tla), for harness/drv_fail.py *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Wheres, Kinds, MaxNth
VARIABLE h
\* Attributes that raise AttributeError are, for Python, attributes that do not exist
Possible(w, x) == ~(w \in {"mprop", "aattr"} /\ x = "AttributeError")
GInit == h = <<>>
GNext == /\ h = <<>>
         /\ \E w \in Wheres, x \in Kinds, n \in 1..MaxNth :
              Possible(w, x) /\ h' = [w |-> w, x |-> x, n |-> n] /\ PrintT("SCEN " \o ToJson(h'))
GSpec == GInit /\ [][GNext]_h
=============================================================================
