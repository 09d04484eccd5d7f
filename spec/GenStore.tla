------------------------------ MODULE GenStore ------------------------------
(* All the histories of flags, printed as JSON, for harness/drv_store.py. *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Depth, Dumps, Drys
VARIABLE h
Flags == [dump: Dumps, dry: Drys, over: BOOLEAN, back: BOOLEAN]
GInit == h = <<>>
GNext == \/ Len(h) < Depth /\ \E f \in Flags : h' = Append(h, f)
         \/ Len(h) = Depth /\ PrintT("SCEN " \o ToJson(h)) /\ h' = Append(h, "end")
GSpec == GInit /\ [][GNext]_h
=============================================================================
