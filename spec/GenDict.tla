------------------------------- MODULE GenDict ------------------------------
(* Sequences of operations on agents and environments seen as dictionaries, for
   harness/drv_dict.py: objects and values are chosen when they are run.      *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Depth
VARIABLE h
Ops == {<<"set", w>> : w \in {"attr", "item", "update", "updatekw", "setdefault"}} \cup
       {<<"del", w>> : w \in {"attr", "item", "pop", "popd"}} \cup {<<"new", "agent">>, <<"die", "agent">>}
Names == {"p", "q", "_h", "prop", "z"}
GInit == h = <<>>
GNext == \/ Len(h) < Depth /\ \E c \in Ops, n \in Names : h' = Append(h, <<c[1], c[2], n>>)
         \/ Len(h) = Depth /\ PrintT("SCEN " \o ToJson(h)) /\ h' = Append(h, "end")
GSpec == GInit /\ [][GNext]_h
=============================================================================
