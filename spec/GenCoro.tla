------------------------------ MODULE GenCoro ------------------------------
(* Every small program of Coro, printed as JSON.                              *)
EXTENDS Coro, Json
VARIABLE p
GInit == MCInit /\ p \in Progs /\ PrintT("SCEN " \o ToJson(p))
GSpec == GInit /\ [][FALSE]_<<vars, p>>
============================================================================
