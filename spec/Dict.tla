-------------------------------- MODULE Dict --------------------------------
(* Agents and environments as dictionaries (BaseAgent and BaseEnvironment in
   soil/agents/__init__.py and soil/environment.py).

   The state of an object is a function from names to values.  It can be read
   and changed as attributes or as items.  Names that start with an underscore
   are not listed, but are otherwise like the rest.  The class of an object has
   properties, which can be read but not listed.                              *)
EXTENDS Kit

VARIABLES
  own,     \* object -> (name -> value)
  cls,     \* object -> (name -> value) what its class provides
  env,     \* agent -> environment
  order    \* environment -> sequence of its agents
vars == <<own, cls, env, order>>

Hidden(n) == n \in {"_h", "_g"}
Listed(o) == {n \in DOMAIN own[o] : ~Hidden(n)}
Has(o, n) == n \in DOMAIN own[o] \/ n \in DOMAIN cls[o]
Value(o, n) == IF n \in DOMAIN own[o] THEN own[o][n] ELSE cls[o][n]

DInit == own = <<>> /\ cls = <<>> /\ env = <<>> /\ order = <<>>

NewEnv(e, f, c) == /\ own' = Put(own, e, f) /\ cls' = Put(cls, e, c) /\ order' = Put(order, e, <<>>) /\ UNCHANGED env
NewAgent(a, e, f, c) == /\ own' = Put(own, a, f) /\ cls' = Put(cls, a, c) /\ env' = Put(env, a, e)
                        /\ order' = [order EXCEPT ![e] = Append(@, a)]
Die(a) == /\ order' = [order EXCEPT ![env[a]] = SelectSeq(@, LAMBDA x : x # a)] /\ UNCHANGED <<own, cls, env>>

Set(o, n, v) == own' = [own EXCEPT ![o] = Put(@, n, v)] /\ UNCHANGED <<cls, env, order>>

\* Set unless it has a value, which is the result
SetDefaultBad(o, n, v, res) == If(res # (IF Has(o, n) THEN Value(o, n) ELSE v), "setdefault-of-another-value")
SetDefault(o, n, v) == IF Has(o, n) THEN UNCHANGED vars ELSE Set(o, n, v)

\* res is "error" when there is nothing to delete, or the value (in pop), or "ok"
DelBad(o, n, how, res, dflt) ==
  LET want == IF n \notin DOMAIN own[o]
                THEN (IF how = "popd" THEN dflt ELSE "error")
                ELSE (IF how \in {"pop", "popd"} THEN own[o][n] ELSE "ok")
  IN If(res # want, "removal-of-" \o (IF n \in DOMAIN own[o] THEN "a-value" ELSE "nothing"))
Del(o, n) == IF n \in DOMAIN own[o] THEN own' = [own EXCEPT ![o] = Drop(@, {n})] /\ UNCHANGED <<cls, env, order>> ELSE UNCHANGED vars

\* Reading: res is the value, or "error", or the default that was given
LookBad(o, n, how, res, dflt) ==
  LET up == o \in DOMAIN env /\ Has(env[o], n)
      want == IF how \in {"in", "hasattr"} THEN (IF Has(o, n) THEN "yes" ELSE "no")
              ELSE IF Has(o, n) THEN Value(o, n)
              ELSE IF how = "get" THEN (IF up THEN Value(env[o], n) ELSE dflt)
              ELSE "error"
  IN If(res # want, "wrong-value-" \o how)

\* Lists of names; some may be skipped, or only some may be asked for
NamesBad(o, ns, only, skip) ==
  LET want == (IF only # <<>> THEN Rng(only[1]) ELSE Listed(o)) \ Rng(skip)
  IN If(~NoDup(ns), "name-listed-twice") \cup
     If(\E n \in Rng(ns) : n \notin want, "name-that-should-not-be-listed") \cup
     If(\E n \in want : n \notin Rng(ns), "name-not-listed")
\* Pairs of names and values
ItemsBad(o, q, only, skip) ==
  NamesBad(o, [i \in DOMAIN q |-> q[i][1]], only, skip) \cup
  If(\E i \in DOMAIN q : LookBad(o, q[i][1], "get", q[i][2], "None") # {}, "wrong-value-listed")
\* Length: d more than the names that we know of
LenBad(o, n, base) == If(n # base + Cardinality(Listed(o)), "wrong-length")
\* The agents of an environment
IterBad(e, q) == If(q # order[e], "wrong-agents")
=============================================================================
