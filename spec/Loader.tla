------------------------------- MODULE Loader -------------------------------
(* Loading simulations from files (soil/simulation.py: iter_from_py,
   iter_from_config, iter_from_file, do_not_run).

   A simulation is [f: set of pairs <<field, value>>, p: parameters, m: matrix].
   Some of its values may be replaced: [f: pairs, p: <<>> or <<parameters>>,
   m: <<>> or <<matrix>>].                                                      *)
EXTENDS Params

Replace(s, o) ==
  [f |-> Override(s.f, o.f),
   p |-> IF o.p = <<>> THEN s.p ELSE o.p[1],
   m |-> IF o.m = <<>> THEN s.m ELSE o.m[1]]
\* One simulation for each combination of parameters of s
Split(s) == {[s EXCEPT !.p = c, !.m = <<>>] : c \in Combinations(s.p, s.m)}
RECURSIVE AnyOrder(_)
AnyOrder(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o AnyOrder(S \ {x})
Map(q, F(_)) == [i \in DOMAIN q |-> F(q[i])]

VARIABLES
  on,      \* files are being loaded, or code is under do_not_run
  opts,    \* what is replaced in the simulations that are loaded
  objs,    \* object -> simulation, in the current file
  names,   \* variable -> object
  queue,   \* simulations (for a combination of parameters) that the file runs
  envs,    \* classes of environments in the file, as a sequence of the simulations they stand for
  failed,  \* some file failed
  want,    \* simulations of the files that are already loaded
  todo     \* models that must still be created by the current run
vars == <<on, opts, objs, names, queue, envs, failed, want, todo>>

Nothing == [f |-> {}, p |-> <<>>, m |-> <<>>]
LoInit == on = FALSE /\ opts = Nothing /\ objs = <<>> /\ names = <<>> /\ queue = <<>> /\ envs = <<>> /\ failed = FALSE
          /\ want = <<>> /\ todo = <<>>

(* ---- The simulations in the current file *)
InFile ==
  LET vs == {names[v] : v \in DOMAIN names}
      explicit == Map(AnyOrder(vs), LAMBDA i : objs[i]) \o queue
  IN  IF explicit # <<>> THEN explicit ELSE envs
Clear == objs' = <<>> /\ names' = <<>> /\ queue' = <<>> /\ envs' = <<>>

Open(o) == ~on /\ on' = TRUE /\ opts' = o /\ Clear /\ failed' = FALSE /\ want' = <<>> /\ UNCHANGED todo
\* Another file
NextFile == /\ on /\ want' = want \o InFile /\ failed' = (failed \/ InFile = <<>>)
            /\ Clear /\ UNCHANGED <<on, opts, todo>>
\* v = i, where i is a new simulation
Define(v, i, s) ==
  /\ on
  /\ objs' = Put(objs, i, s)
  /\ names' = IF v = "" THEN names ELSE Put(names, v, i)
  /\ UNCHANGED <<on, opts, queue, envs, failed, want, todo>>
Alias(v, w) == on /\ names' = Put(names, v, names[w]) /\ UNCHANGED <<on, opts, objs, queue, envs, failed, want, todo>>
Forget(v) == on /\ names' = Drop(names, {v}) /\ UNCHANGED <<on, opts, objs, queue, envs, failed, want, todo>>
\* The file runs simulation i, with some values replaced: nothing is run
Runs(i, o) == on /\ queue' = queue \o AnyOrder(Split(Replace(objs[i], o))) /\ UNCHANGED <<on, opts, objs, names, envs, failed, want, todo>>
Class(s) == on /\ envs' = Append(envs, s) /\ UNCHANGED <<on, opts, objs, names, queue, failed, want, todo>>
Fail == on /\ failed' = TRUE /\ UNCHANGED <<on, opts, objs, names, queue, envs, want, todo>>

(* ---- The end of loading *)
Expected == Map(want \o InFile, LAMBDA s : Replace(s, opts))
SomeFailed == failed \/ InFile = <<>>
ResultBad(res) ==
  If(SomeFailed, "the-failure-is-not-reported") \cup
  If(\E i \in DOMAIN res : res[i] \notin Rng(Expected), "simulation-that-is-not-in-the-files") \cup
  If(\E s \in Rng(Expected) : s \notin Rng(res), "simulation-missing") \cup
  If(Rng(res) = Rng(Expected) /\ ~IsPermOf(res, Expected), "simulation-repeated")
FirstBad(s) == If(SomeFailed, "the-failure-is-not-reported") \cup If(s \notin Rng(Expected), "simulation-that-is-not-in-the-files")
FailedBad(same) == If(~SomeFailed, "failure-of-a-valid-file") \cup If(~same, "another-error-is-reported")
Close == on' = FALSE /\ Clear /\ failed' = FALSE /\ want' = <<>> /\ UNCHANGED <<opts, todo>>
\* The files are loaded, but the simulations have not been all given yet
Loaded == on' = FALSE /\ UNCHANGED <<opts, objs, names, queue, envs, failed, want, todo>>

(* ---- Running simulations *)
Valued(s, k) == (CHOOSE x \in s.f : x[1] = k)[2]
\* n times each combination of parameters of s
RunsOf(s, n) == LET c == AnyOrder(Combinations(s.p, s.m)) IN [i \in 1..(Len(c) * n) |-> <<Valued(s, "model"), c[((i - 1) \div n) + 1]>>]
Run(s, n) == todo' = (IF on THEN <<>> ELSE RunsOf(s, n)) /\ UNCHANGED <<on, opts, objs, names, queue, envs, failed, want>>
\* A model of class c is created with parameters p
MadeBad(c, p) ==
  If(on, "run-while-loading") \cup
  If(~on /\ <<c, p>> \notin Rng(todo), "run-of-something-else")
Made(c, p) == /\ MadeBad(c, p) = {}
              /\ LET i == CHOOSE j \in DOMAIN todo : todo[j] = <<c, p>> IN todo' = SubSeq(todo, 1, i - 1) \o SubSeq(todo, i + 1, Len(todo))
              /\ UNCHANGED <<on, opts, objs, names, queue, envs, failed, want>>
\* Every simulation of the files is run, one after another
Times(s) == LET n == Valued(s, "iterations") IN CASE n = "int:1" -> 1 [] n = "int:2" -> 2 [] n = "int:3" -> 3
RECURSIVE Flat(_)
Flat(q) == IF q = <<>> THEN <<>> ELSE RunsOf(q[1], Times(q[1])) \o Flat(Tail(q))
RunAll == /\ on' = FALSE
          /\ todo' = (IF SomeFailed THEN <<>> ELSE Flat(Expected))
          /\ UNCHANGED <<opts, objs, names, queue, envs, failed, want>>
RanBad(fine, same) == If(~same, "another-error-is-reported") \cup If(fine /\ SomeFailed, "the-failure-is-not-reported") \cup If(~fine /\ ~SomeFailed, "failure-of-a-valid-file") \cup If(fine /\ todo # <<>>, "not-run")
Ran == on' = FALSE /\ Clear /\ failed' = FALSE /\ want' = <<>> /\ todo' = <<>> /\ UNCHANGED opts
DoneBad(n, k) == If(todo # <<>>, "not-run") \cup If(n # k, "results-missing")
Done == todo' = <<>> /\ UNCHANGED <<on, opts, objs, names, queue, envs, failed, want>>

\* Code that must not be run
Guard == ~on /\ on' = TRUE /\ UNCHANGED <<opts, objs, names, queue, envs, failed, want, todo>>
Unguard == on /\ on' = FALSE /\ UNCHANGED <<opts, objs, names, queue, envs, failed, want, todo>>
=============================================================================
