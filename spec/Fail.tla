-------------------------------- MODULE Fail --------------------------------
(* Errors in the code of the user while a simulation runs (soil/simulation.py,
   soil/environment.py, soil/exporters.py, soil/time.py): models, agents,
   reporters, generators and exporters may raise at any point.

   A run has a number of results to produce, one at a time.  In each of them the
   code of the user works (any number of times) until the result is ready; then
   the exporters are told about it, and it is stored.  A failure may come at any
   point, and must be the last thing that happens.                            *)
EXTENDS Kit

VARIABLES
  run,      \* number of the run under way, or 0
  key,      \* what is being run: the simulation, with its parameters and seed
  due,      \* number of results of the run
  begun,    \* number of results whose models have been created in the run
  got,      \* results (labels) that the exporters have been told about, in order
  open,     \* error raised in the run, or 0
  stored,   \* set of <<run, label, digest>> that must be in the database
  ref       \* key -> digest of the results of a run without errors
vars == <<run, key, due, begun, got, open, stored, ref>>

FInit == run = 0 /\ key = "" /\ due = 0 /\ begun = 0 /\ got = <<>> /\ open = 0 /\ stored = {} /\ ref = <<>>

BeginBad(r) == If(run # 0, "run-inside-another")
Begin(r, s, n) == /\ BeginBad(r) = {} /\ run' = r /\ key' = s /\ due' = n /\ begun' = 0 /\ got' = <<>> /\ open' = 0
                  /\ UNCHANGED <<stored, ref>>

\* The code of the user is called
WorkBad == If(run = 0, "code-called-out-of-a-run") \cup If(run # 0 /\ open # 0, "code-called-after-an-error")
Work == WorkBad = {} /\ UNCHANGED vars

\* A model is created: the next result starts
StartBad == WorkBad \cup If(run # 0 /\ begun >= due, "too-many-models")
Start == StartBad = {} /\ begun' = begun + 1 /\ UNCHANGED <<run, key, due, got, open, stored, ref>>

\* It raises an error
RaiseBad(x) == WorkBad
Raise(x) == RaiseBad(x) = {} /\ open' = x /\ UNCHANGED <<run, key, due, begun, got, stored, ref>>

\* A result is ready (and it has been stored, if results are stored in this run)
ReadyBad(b) == WorkBad \cup If(b \in Rng(got), "result-told-twice") \cup If(run # 0 /\ Len(got) >= begun, "result-of-nothing") \cup If(run # 0 /\ Len(got) >= due, "too-many-results")
Ready(b, d, store) == /\ ReadyBad(b) = {} /\ got' = Append(got, b)
                      /\ stored' = IF store THEN stored \cup {<<run, b, d>>} ELSE stored
                      /\ UNCHANGED <<run, key, due, begun, open, ref>>

\* The error reaches the caller, as it was raised
CaughtBad(x) ==
  If(run = 0, "error-out-of-a-run") \cup
  If(run # 0 /\ open = 0, "error-that-nobody-raised") \cup
  If(run # 0 /\ open # 0 /\ x # open, "another-error-instead") \cup
  \* Every result but the one that was under way had finished, and has been told and stored
  If(run # 0 /\ Len(got) < begun - 1, "finished-results-lost")
Caught(x) == CaughtBad(x) = {} /\ run' = 0 /\ open' = 0 /\ UNCHANGED <<key, due, begun, got, stored, ref>>

\* The run ends and returns its results
ReturnedBad(n, d) ==
  If(run = 0, "results-out-of-a-run") \cup
  If(run # 0 /\ open # 0, "error-hidden") \cup
  If(run # 0 /\ open = 0 /\ (n # due \/ Len(got) # due), "results-missing") \cup
  If(run # 0 /\ open = 0 /\ key \in DOMAIN ref /\ ref[key] # d, "later-run-is-not-the-same")
Returned(n, d) == /\ ReturnedBad(n, d) = {} /\ run' = 0 /\ ref' = Put(ref, key, d)
                  /\ UNCHANGED <<key, due, begun, got, open, stored>>

\* What the database contains: a sequence of <<run, label, digest>>
DatabaseBad(q) ==
  If(stored \ Rng(q) # {}, "stored-results-lost") \cup
  If(Rng(q) \ stored # {}, "results-of-nothing") \cup
  If(~NoDup(q), "results-stored-twice")
=============================================================================
