-------------------------------- MODULE Count -------------------------------
(* The agents that count (soil/agents/CounterModel.py): Ticker counts its own
   activations, CounterModel also gives the number of agents and of neighbors in
   its last activation, and AggregatedCounter adds them up.                    *)
EXTENDS Kit

VARIABLES
  at,      \* network agent -> node
  others,  \* agents that are not in the network
  edges,   \* set of sets of two nodes
  cnt      \* agent that counts -> [kind, times, neighbors, total]
vars == <<at, others, edges, cnt>>

CInit(E) == at = <<>> /\ others = {} /\ edges = E /\ cnt = <<>>

Total == Cardinality(DOMAIN at) + Cardinality(others)
Near(a) == {b \in DOMAIN at : {at[a], at[b]} \in edges /\ at[a] # at[b]}
After(a) ==
  LET c == cnt[a]  n == Cardinality(Near(a)) IN
  CASE c.kind = "Ticker"  -> [c EXCEPT !.times = @ + 1]
    [] c.kind = "Counter" -> [c EXCEPT !.times = @ + 1, !.neighbors = n, !.total = Total]
    [] c.kind = "Sum"     -> [c EXCEPT !.times = @ + 1, !.neighbors = @ + n, !.total = @ + Total]

Born(a, n, kind) ==
  /\ IF n = "" THEN others' = others \cup {a} /\ UNCHANGED at ELSE at' = Put(at, a, n) /\ UNCHANGED others
  /\ cnt' = IF kind = "" THEN cnt ELSE Put(cnt, a, [kind |-> kind, times |-> 0, neighbors |-> 0, total |-> 0])
  /\ UNCHANGED edges
\* An agent dies, with its node
Die(a) ==
  /\ edges' = IF a \in DOMAIN at THEN {e \in edges : at[a] \notin e} ELSE edges
  /\ at' = Drop(at, {a}) /\ others' = others \ {a} /\ UNCHANGED cnt
Link(u, v) == edges' = edges \cup {{u, v}} /\ UNCHANGED <<at, others, cnt>>
Cut(u, v) == edges' = edges \ {{u, v}} /\ UNCHANGED <<at, others, cnt>>

ActBad(a, times, neighbors, total) ==
  LET w == After(a) IN
  If(times # w.times, "wrong-number-of-times") \cup
  If(neighbors # w.neighbors, "wrong-number-of-neighbors") \cup
  If(total # w.total, "wrong-number-of-agents")
Act(a) == cnt' = [cnt EXCEPT ![a] = After(a)] /\ UNCHANGED <<at, others, edges>>
\* What the agent has at any other time
ShowBad(a, times, neighbors, total) ==
  If(<<times, neighbors, total>> # <<cnt[a].times, cnt[a].neighbors, cnt[a].total>>, "count-changes-by-itself")
=============================================================================
