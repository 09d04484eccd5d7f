------------------------------- MODULE GenLog -------------------------------
(* Levels of soil, the simulation, its environment and an agent, for harness/drv_log.py *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANT Levels
VARIABLE h
GInit == h = <<>>
GNext == /\ h = <<>>
         /\ \E a \in Levels, b \in Levels, c \in Levels \cup {0}, d \in Levels \cup {0} : h' = <<a, b, c, d>> /\ PrintT("SCEN " \o ToJson(h'))
GSpec == GInit /\ [][GNext]_h
=============================================================================
