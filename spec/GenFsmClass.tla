----------------------------- MODULE GenFsmClass -----------------------------
(* Every small chain of classes of FsmClass, printed as JSON.                  *)
EXTENDS FsmClass, Json
GInit == MCInit /\ PrintT("SCEN " \o ToJson(chain))
GSpec == GInit /\ [][FALSE]_vars
==============================================================================
