------------------------------ MODULE GenCount ------------------------------
(* Sequences of changes between steps, for harness/drv_count.py *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANT Depth
VARIABLE h
Cmds == {"step", "die", "counter", "sum", "ticker", "other", "link", "cut", "kill"}
GInit == h = <<>>
GNext == \/ Len(h) < Depth /\ \E c \in Cmds : h' = Append(h, c)
         \/ Len(h) = Depth /\ PrintT("SCEN " \o ToJson(h)) /\ h' = Append(h, "end")
GSpec == GInit /\ [][GNext]_h
=============================================================================
