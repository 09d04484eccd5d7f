------------------------------- MODULE GenNet -------------------------------
(* Sequences of the commands of Net, printed as JSON, for harness/drv_net.py:
   which agents and nodes they affect is decided when they are run.           *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANT Depth
VARIABLE h
Cmds == {"add", "addat", "addnode", "addnew", "many", "all", "plain", "populate", "die", "leave", "unode", "udrop", "uedge", "ucut", "link", "parent", "addid"}
GInit == h = <<>>
GNext == \/ Len(h) < Depth /\ \E c \in Cmds : h' = Append(h, c)
         \/ Len(h) = Depth /\ PrintT("SCEN " \o ToJson(h)) /\ h' = Append(h, "end")
GSpec == GInit /\ [][GNext]_h
=============================================================================
