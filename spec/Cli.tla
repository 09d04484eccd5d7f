-------------------------------- MODULE Cli --------------------------------
(* The command line (soil/__init__.py: main): what is run, and what is written, for
   a file with some simulations and some options.

   A simulation is [c: class of its model, name, seed, n: iterations, t: max_time,
   s: max_steps, p: parameters, m: matrix, life: activations of its only agent].
   The options are [seed, n, t, s: <<>> or <<value>>, set: parameters, dry, nodump,
   convert, missing: BOOLEAN, out: folder, kinds: kinds of files].              *)
EXTENDS Params

Given(o, x) == IF o = <<>> THEN x ELSE o[1]
\* The simulation that is run
Effective(s, o) ==
  [s EXCEPT !.seed = Given(o.seed, @), !.n = Given(o.n, @), !.t = Given(o.t, @), !.s = Given(o.s, @), !.p = Override(@, o.set)]
\* The number of steps of its models (the agent is activated every 4 quarters)
Over(s, k) == k = s.life \/ (s.t # None /\ 4 * k >= s.t) \/ (s.s # None /\ k >= s.s)
Steps(s) == SetMin({k \in 0..s.life : Over(s, k)})
Models(s) == {[c |-> s.c, p |-> p, i |-> i, seed |-> s.seed, k |-> Steps(s)] : p \in Combinations(s.p, s.m), i \in 0..(s.n - 1)}
Runs(o) == ~o.dry /\ ~o.convert /\ ~o.missing

VARIABLES
  sims,    \* simulations in the file
  opt,     \* options
  inorder, \* whether the simulations are run in the order of the file (and not those that it runs first)
  want,    \* models that have not been run yet
  digest   \* <<seed, parameters, iteration>> -> random sequence
vars == <<sims, opt, inorder, want, digest>>

NoOptions == [seed |-> <<>>, n |-> <<>>, t |-> <<>>, s |-> <<>>, set |-> {}, dry |-> FALSE, nodump |-> FALSE, convert |-> FALSE, missing |-> FALSE, out |-> "soil_output", kinds |-> {}]
CInit == sims = <<>> /\ opt = NoOptions /\ inorder = FALSE /\ want = {} /\ digest = <<>>

\* The program is called
Invoke(ss, o, io) ==
  /\ inorder' = io
  /\ sims' = ss /\ opt' = o
  /\ want' = IF Runs(o) THEN UNION {Models(Effective(ss[i], o)) : i \in DOMAIN ss} ELSE {}
  /\ UNCHANGED digest
\* The random sequence d is the one for iteration i with seed s and parameters p
Ref(s, p, i, d) == digest' = Put(digest, <<s, p, i>>, d) /\ UNCHANGED <<sims, opt, inorder, want>>

(* A model of class c has been run for k steps, with parameters p, as iteration i, with
   the random sequence d *)
ModelBad(c, p, i, k, d) ==
  LET like == {w \in want : w.c = c /\ w.p = p /\ w.i = i} IN
  If(~Runs(opt), "run-without-being-asked-to") \cup
  If(Runs(opt) /\ {w \in want : w.c = c} = {}, "model-run-too-many-times") \cup
  If(inorder /\ \E i1, i2 \in DOMAIN sims : i1 < i2 /\ sims[i2].c = c /\ \E w \in want : w.c = sims[i1].c, "run-before-those-that-are-first") \cup
  If({w \in want : w.c = c} # {} /\ {w \in want : w.c = c /\ w.p = p} = {}, "run-with-other-parameters") \cup
  If({w \in want : w.c = c /\ w.p = p} # {} /\ like = {}, "iteration-repeated-or-out-of-range") \cup
  If(\E w \in like : w.k # k, "run-with-other-limits") \cup
  If(\E w \in like : <<w.seed, p, i>> \in DOMAIN digest /\ digest[<<w.seed, p, i>>] # d, "run-with-another-seed")
Model(c, p, i, k, d) ==
  /\ ModelBad(c, p, i, k, d) = {}
  /\ want' = {w \in want : ~(w.c = c /\ w.p = p /\ w.i = i)}
  /\ UNCHANGED <<sims, opt, inorder, digest>>

\* Files: set of <<folder, simulation, kind>>
Files == IF Runs(opt) /\ ~opt.nodump THEN {opt.out} \X {sims[i].name : i \in DOMAIN sims} \X opt.kinds ELSE {}
\* Some kinds of files are only written for the iterations
Written == {f \in Files : f[3] \in {"yml", "sqlite", "dummy"} \/ \E i \in DOMAIN sims : sims[i].name = f[2] /\ Effective(sims[i], opt).n > 0}
\* What is printed about each simulation
Doc(s) == LET e == Effective(s, opt) IN [c |-> e.c, name |-> e.name, seed |-> e.seed, n |-> e.n, t |-> s.t, s |-> s.s, p |-> e.p, m |-> e.m]
Docs == IF opt.convert /\ ~opt.missing THEN [i \in DOMAIN sims |-> Doc(sims[i])] ELSE <<>>
ExitBad(fs, docs) ==
  If(want # {}, "not-run") \cup
  If(\E f \in fs : f \notin Files, "unexpected-file") \cup
  If(\E f \in Written : f \notin fs, "file-missing") \cup
  If(~IsPermOf(docs, Docs), "other-configuration-printed")
\* A call with a simulation that fails (the last one) ends with its error
FailedBad(yes) == If(yes # (Runs(opt) /\ Effective(sims[Len(sims)], opt).n > 0), IF yes THEN "error-without-running" ELSE "error-hidden")
Crash == want' = {} /\ UNCHANGED <<sims, opt, inorder, digest>>
\* Modules given, and imported
ModulesBad(given, found) == If(Rng(given) # Rng(found), "module-not-imported")
\* CSV files: n rows, u of them different
CsvBad(n, u) == If(n # u, "results-written-twice")
Exit == want' = {} /\ UNCHANGED <<sims, opt, inorder, digest>>
=============================================================================
