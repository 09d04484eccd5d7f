------------------------------- MODULE Sweep -------------------------------
(* Running a simulation: every combination of parameters, the given number of
   times, and what the exporters are told about it (soil/simulation.py: run).  *)
EXTENDS Params

VARIABLES
  run,      \* the current run, or NoRun
  made,     \* model -> [c: parameters, i: iteration] in this run
  begun,    \* exporters that know that it started
  told,     \* exporter -> models it has been told about
  ended,    \* exporters that know that it ended
  ids       \* parameters -> identifier (of every run)
vars == <<run, made, begun, told, ended, ids>>

NoRun == [on |-> FALSE, combs |-> {}, n |-> 0, exps |-> {}, mr |-> {}, reps |-> {}]
WInit == run = NoRun /\ made = <<>> /\ begun = {} /\ told = <<>> /\ ended = {} /\ ids = <<>>

\* A run is requested
Begin(fixed, m, n, exps, mr, reps) ==
  /\ run' = [on |-> TRUE, combs |-> Combinations(fixed, m), n |-> n, exps |-> exps, mr |-> mr, reps |-> reps]
  /\ made' = <<>> /\ begun' = {} /\ told' = [x \in exps |-> {}] /\ ended' = {}
  /\ UNCHANGED ids

StartBad(x) ==
  If(x \notin run.exps, "unknown-exporter") \cup
  If(x \in begun, "start-told-twice") \cup
  If(DOMAIN made # {}, "start-told-after-a-model-was-created")
Start(x) == StartBad(x) = {} /\ begun' = begun \cup {x} /\ UNCHANGED <<run, made, told, ended, ids>>

\* Iteration i for the parameters c is created
MakeBad(c, i, e) ==
  If(begun # run.exps, "model-created-before-the-start") \cup
  If(c \notin run.combs, "model-with-other-parameters") \cup
  If(i \notin 0..(run.n - 1), "iteration-out-of-range") \cup
  If(\E f \in DOMAIN made : made[f] = [c |-> c, i |-> i], "iteration-repeated") \cup
  If(ended # {}, "model-created-after-the-end")
Make(c, i, e) == MakeBad(c, i, e) = {} /\ made' = Put(made, e, [c |-> c, i |-> i]) /\ UNCHANGED <<run, begun, told, ended, ids>>

IdBad(c, pid) ==
  If(c \in DOMAIN ids /\ ids[c] # pid, "other-identifier-for-the-same-parameters") \cup
  If(\E d \in DOMAIN ids : d # c /\ ids[d] = pid, "same-identifier-for-other-parameters")
TellBad(x, e, c, i, pid, done) ==
  If(x \notin begun, "result-told-before-the-start") \cup
  If(x \in ended, "result-told-after-the-end") \cup
  If(e \notin DOMAIN made, "unknown-result") \cup
  If(e \in DOMAIN made /\ made[e] # [c |-> c, i |-> i], "result-told-with-other-parameters") \cup
  If(x \in run.exps /\ e \in told[x], "result-told-twice") \cup
  If(~done, "result-told-before-its-end") \cup
  IdBad(c, pid)
Tell(x, e, c, i, pid, done) ==
  /\ TellBad(x, e, c, i, pid, done) = {}
  /\ told' = [told EXCEPT ![x] = @ \cup {e}]
  /\ ids' = Put(ids, c, pid)
  /\ UNCHANGED <<run, made, begun, ended>>

EndBad(x) ==
  If(x \notin begun, "end-told-before-the-start") \cup
  If(x \in ended, "end-told-twice") \cup
  If(x \in run.exps /\ told[x] # DOMAIN made, "end-told-before-some-results") \cup
  If(Cardinality(DOMAIN made) # Cardinality(run.combs) * run.n, "end-told-before-everything-was-run")
End(x) == EndBad(x) = {} /\ ended' = ended \cup {x} /\ UNCHANGED <<run, made, begun, told, ids>>

\* The names of the reporters of a model with parameters c
Reporters(c) == run.mr \cup UNION {r[2] : r \in {s \in run.reps : s[1] \in c}}
\* The run returns some models: sequence of [e, c, i, cols]
ReturnBad(res) ==
  LET es == {res[j].e : j \in DOMAIN res} IN
  If(ended # run.exps, "returned-before-telling-the-end") \cup
  If(es # DOMAIN made \/ Len(res) # Cardinality(DOMAIN made), "results-missing-or-repeated") \cup
  If(Cardinality(DOMAIN made) # Cardinality(run.combs) * run.n, "combinations-or-iterations-missing") \cup
  If(\E j \in DOMAIN res : res[j].e \in DOMAIN made /\ made[res[j].e] # [c |-> res[j].c, i |-> res[j].i], "result-with-other-parameters") \cup
  If(\E j \in DOMAIN res : res[j].cols # Reporters(res[j].c), "result-with-other-reporters")
Return(res) == ReturnBad(res) = {} /\ run' = NoRun /\ UNCHANGED <<made, begun, told, ended, ids>>

\* The simulation, its parameters and its matrix, after running
SameBad(same) == If(~same, "the-simulation-was-modified")
=============================================================================
