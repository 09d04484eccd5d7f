----------------------------- MODULE AgentInit -----------------------------
(* The state of agents: where its initial value comes from, and that it belongs
   to each agent (soil/agents/__init__.py: MetaAgent, BaseAgent).

   A class is the sequence of what it and its ancestors declare, from the base
   down: each element is a function from names to values.  The model is another
   function.  Null is the value None.                                          *)
EXTENDS Kit

Null == "None"

VARIABLES
  classes,   \* class -> sequence of declarations
  model,     \* attributes of the model
  state      \* agent -> name -> value
vars == <<classes, model, state>>

AInit(cs) == classes = cs /\ model = <<>> /\ state = <<>>

Declared(c) == UNION {DOMAIN classes[c][i] : i \in DOMAIN classes[c]}
Closest(c, n) == LET S == {i \in DOMAIN classes[c] : n \in DOMAIN classes[c][i]} IN classes[c][SetMax(S)][n]
Initial(c, n, args) ==
  IF n \in DOMAIN args THEN args[n]
  ELSE IF n \in DOMAIN model /\ model[n] # Null THEN model[n]
  ELSE Closest(c, n)
Expected(c, args) == [n \in Declared(c) \cup DOMAIN args |-> Initial(c, n, args)]

\* The model sets (or removes) one of its attributes
SetModel(n, v) == model' = Put(model, n, v) /\ UNCHANGED <<classes, state>>

\* Agent a is being created: st is what it finds in its init method
CreateBad(a, c, args, st) ==
  LET x == Expected(c, args) IN
  If(a \in DOMAIN state, "initialised-twice") \cup
  If(DOMAIN x \ DOMAIN st # {}, "attribute-missing-in-init") \cup
  If(DOMAIN st \ DOMAIN x # {}, "attribute-from-nowhere") \cup
  If(\E n \in DOMAIN x \cap DOMAIN st : n \in DOMAIN args /\ st[n] # x[n], "argument-ignored") \cup
  If(\E n \in DOMAIN x \cap DOMAIN st : n \notin DOMAIN args /\ n \in DOMAIN model /\ model[n] # Null /\ st[n] # x[n], "value-of-the-model-ignored") \cup
  If(\E n \in DOMAIN x \cap DOMAIN st : n \notin DOMAIN args /\ ~(n \in DOMAIN model /\ model[n] # Null) /\ st[n] # x[n], "other-default")
Create(a, c, args, st) ==
  /\ CreateBad(a, c, args, st) = {}
  /\ state' = Put(state, a, Expected(c, args))
  /\ UNCHANGED <<classes, model>>

\* The state of an agent changes, in whatever way
Write(a, n, v) == a \in DOMAIN state /\ state' = [state EXCEPT ![a] = Put(@, n, v)] /\ UNCHANGED <<classes, model>>
Erase(a, n) == a \in DOMAIN state /\ state' = [state EXCEPT ![a] = Drop(@, {n})] /\ UNCHANGED <<classes, model>>

\* Observations
\* Agents that have just been created: init was called
BornBad(ids) == If(\E i \in DOMAIN ids : ids[i] \notin DOMAIN state, "agent-never-initialised")
SeeBad(a, st) ==
  If(DOMAIN state[a] # DOMAIN st, "attribute-lost-or-gained") \cup
  If(\E n \in DOMAIN state[a] \cap DOMAIN st : st[n] # state[a][n], "state-changed-by-itself")
\* A value read as an item, as an attribute or with get
ReadBad(a, n, v) == If(n \notin DOMAIN state[a] \/ state[a][n] # v, "wrong-value-read")
HasBad(a, n, yes) == If(yes # (n \in DOMAIN state[a]), "wrong-membership")
-----------------------------------------------------------------------------
CONSTANTS Names, Values, Agents
Partial == UNION {[S -> Values] : S \in SUBSET Names}
MCInit == \E p, q \in Partial : AInit([base |-> <<p>>, derived |-> <<p, q>>])
MCNext == \/ \E a \in Agents, c \in DOMAIN classes, args \in Partial : a \notin DOMAIN state /\ Create(a, c, args, Expected(c, args))
          \/ \E n \in Names, v \in Values : SetModel(n, v)
          \/ \E a \in DOMAIN state, n \in Names : Erase(a, n) \/ \E v \in Values : Write(a, n, v)
MCSpec == MCInit /\ [][MCNext]_vars
\* Every declared attribute has a value when the agent is created
HasAll == \A c \in DOMAIN classes : \A n \in Declared(c) : n \in DOMAIN Expected(c, <<>>)
\* A redefinition hides those of the base class, unless something hides it
Hides == \A n \in DOMAIN classes.derived[2] : (n \notin DOMAIN model \/ model[n] = Null) => Expected("derived", <<>>)[n] = classes.derived[2][n]
\* What happens to an agent only concerns that agent
Own == [][\A a, b \in DOMAIN state : a # b /\ state'[a] # state[a] => state'[b] = state[b]]_vars
=============================================================================
