------------------------------ MODULE GenTopo ------------------------------
(* Sequences of the changes to a network of Topo, for harness/drv_topo.py: the
   agents and nodes are chosen when they are run.                              *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANT Depth
VARIABLE h
Cmds == {"link", "die", "set", "place", "add", "addnode", "step"}
GInit == h = <<>>
GNext == \/ Len(h) < Depth /\ \E c \in Cmds : h' = Append(h, c)
         \/ Len(h) = Depth /\ PrintT("SCEN " \o ToJson(h)) /\ h' = Append(h, "end")
GSpec == GInit /\ [][GNext]_h
=============================================================================
