----------------------------- MODULE GenConfig -----------------------------
(* The shapes of the values of Config, up to two levels of nesting: <<kind>>, or
   <<kind, children>>.  The driver chooses the basic values.                    *)
EXTENDS Sequences, TLC, Json
VARIABLE h
Kinds == {"int", "float", "bool", "none", "str", "bytes"}
Leaves == {<<k>> : k \in Kinds}
Some == {<<"int">>, <<"str">>}
Seqs(S) == {<<>>} \cup {<<x>> : x \in S} \cup {<<x, y>> : x, y \in S}
Flat == {<<c, q>> : c \in {"list", "tuple", "dict", "set"}, q \in Seqs(Leaves)}
Small == {<<c, q>> : c \in {"list", "tuple", "dict", "set"}, q \in {<<>>} \cup {<<x>> : x \in Some} \cup {<<<<"int">>, <<"str">>>>}}
Nested == {<<c, <<s>>>> : c \in {"list", "tuple", "dict"}, s \in Small} \cup
          {<<c, <<s, t>>>> : c \in {"list", "tuple", "dict"}, s \in Small, t \in {<<"none">>, <<"dict", <<<<"int">>>>>>}} \cup
          {<<"set", <<<<"tuple", q>>>>>> : q \in Seqs(Some)}
GInit == h = <<>>
GNext == h = <<>> /\ \E v \in Leaves \cup Flat \cup Nested : PrintT("SCEN " \o ToJson(v)) /\ h' = v
GSpec == GInit /\ [][GNext]_h
=============================================================================
