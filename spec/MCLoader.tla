------------------------------ MODULE MCLoader ------------------------------
(* Every short file, loaded one after another, with and without options. *)
EXTENDS Loader
CONSTANTS MaxStmts, MaxFiles
VARIABLES stmts, files, last
mvars == <<vars, stmts, files, last>>
Vs == {"a", "b"}
Sim(v, wide) == [f |-> {<<"model", "E">>, <<"name", v>>, <<"file", files>>}, p |-> {<<"x", 0>>}, m |-> IF wide THEN << <<"x", {1, 2}>> >> ELSE <<>>]
Opts == {Nothing, [f |-> {<<"name", "z">>}, p |-> <<>>, m |-> <<>>]}
Fresh == Cardinality(DOMAIN objs) + 1
Room == on /\ ~failed /\ stmts < MaxStmts
MCInit == LoInit /\ stmts = 0 /\ files = 0 /\ last = <<>>
MCNext ==
  \/ /\ ~on /\ files < MaxFiles /\ todo = <<>> /\ \E o \in Opts : Open(o)
     /\ files' = files + 1 /\ stmts' = 0 /\ last' = <<>>
  \/ /\ Room /\ stmts' = stmts + 1 /\ UNCHANGED <<files, last>>
     /\ \/ \E v \in Vs \cup {""}, w \in BOOLEAN : Define(v, Fresh, Sim(v, w))
        \/ \E v \in Vs, w \in DOMAIN names : Alias(v, w)
        \/ \E v \in DOMAIN names : Forget(v)
        \/ \E i \in DOMAIN objs : Runs(i, Nothing)
        \/ Class(Sim("E", FALSE))
        \/ Fail
  \/ /\ on /\ last' = (IF SomeFailed THEN <<>> ELSE Expected) /\ Close /\ UNCHANGED <<stmts, files>>
  \/ /\ ~on /\ last # <<>> /\ todo = <<>> /\ Run(last[1], 1) /\ last' = Tail(last) /\ UNCHANGED <<stmts, files>>
  \/ /\ todo # <<>> /\ Made(todo[1][1], todo[1][2]) /\ UNCHANGED <<stmts, files, last>>
MCSpec == MCInit /\ [][MCNext]_mvars

\* Nothing is run while files are being loaded
Still == on => todo = <<>>
\* Everything comes from the last file
OwnFile == \A i \in DOMAIN last : <<"file", files>> \in last[i].f
\* What a file runs is given with its own parameters, and without a matrix
Single == \A i \in DOMAIN queue : queue[i].m = <<>>
\* A failed file gives nothing, and leaves nothing behind
Clean == ~on => (names = <<>> /\ queue = <<>> /\ envs = <<>> /\ ~failed)
\* No simulation without a name in the file or a call to run, except for the environments
Sound == [][(on /\ ~on' /\ last' # <<>>) =>
   Len(last') = (IF names = <<>> /\ queue = <<>> THEN Len(envs) ELSE Cardinality({names[v] : v \in DOMAIN names}) + Len(queue))]_mvars
=============================================================================
