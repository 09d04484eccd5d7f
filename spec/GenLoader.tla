----------------------------- MODULE GenLoader -----------------------------
(* All the files with a few statements. *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxStmts
VARIABLE h
Stmts == {"def a", "def b", "anon", "run a", "run b", "alias b a", "del a", "class", "fail"}
Defines(q, v) == \E i \in DOMAIN q : /\ q[i] = "def " \o v \/ (v = "b" /\ q[i] = "alias b a")
                                     /\ ~\E j \in (i + 1)..Len(q) : q[j] = "del " \o v
Needs(s) == IF s \in {"run a", "alias b a", "del a"} THEN {"a"} ELSE IF s = "run b" THEN {"b"} ELSE {}
GInit == h = <<>>
GNext == /\ Len(h) < MaxStmts
         /\ (IF h = <<>> THEN TRUE ELSE h[Len(h)] # "fail")
         /\ \E s \in Stmts : /\ \A v \in Needs(s) : Defines(h, v)
                             /\ h' = Append(h, s)
                             /\ PrintT("SCEN " \o ToJson(h'))
GSpec == GInit /\ [][GNext]_h
=============================================================================
