------------------------------- MODULE Config -------------------------------
(* Configurations (soil/simulation.py, soil/serialization.py): the names of
   classes, texts of values, simulations as documents, and templates.

   Values are opaque here: <<type, contents>> as a text that determines both.
   A reference to a class is its identity.                                      *)
EXTENDS Params

VARIABLES
  known,   \* modules where unqualified names are looked for, in order (the builtins first)
  defs,    \* module -> (name -> class)
  sims,    \* simulation -> set of <<field, value>>
  docs,    \* document -> set of <<field, value>>
  ran,     \* the results of each simulation: set of <<field, value>> -> digest
  tm       \* the templates of a file: sequence of [lists: matrix, bounds: sequence of names, samples: sequence of sequences, fixed: parameters]
vars == <<known, defs, sims, docs, ran, tm>>

ConInit(kn) == known = kn /\ defs = [m \in Rng(kn) |-> <<>>] /\ sims = <<>> /\ docs = <<>> /\ ran = <<>> /\ tm = <<>>

(* ---- Names: n is [mod: <<>> or <<module>>, name: name] *)
Define(m, x, c) == /\ defs' = Put(defs, m, Put(IF m \in DOMAIN defs THEN defs[m] ELSE <<>>, x, c))
                   /\ UNCHANGED <<known, sims, docs, ran, tm>>
Knowing(kn) == known' = kn /\ UNCHANGED <<defs, sims, docs, ran, tm>>
Has(m, x) == m \in DOMAIN defs /\ x \in DOMAIN defs[m]
\* Unqualified names are looked for in the known modules; others, in theirs
RECURSIVE Lookup(_, _)
Lookup(ms, x) == IF ms = <<>> THEN None ELSE IF Has(ms[1], x) THEN defs[ms[1]][x] ELSE Lookup(Tail(ms), x)
Resolve(n) == IF n.mod = <<>> THEN Lookup(known, n.name) ELSE IF Has(n.mod[1], n.name) THEN defs[n.mod[1]][n.name] ELSE None
\* A class c, called x in module m, is given the short name if (and only if) it leads back to it
NameOf(m, x) == IF Lookup(known, x) = defs[m][x] THEN [mod |-> <<>>, name |-> x] ELSE [mod |-> <<m>>, name |-> x]

NameBad(c, n) == If(Resolve(n) # c, "name-of-another-class")
ResolveBad(n, c) == If(Resolve(n) # c, "name-leads-to-another-class")

(* ---- Texts *)
RecoverBad(v, r) == If(v # r, "another-value-after-serialization")

(* ---- Documents *)
Make(i, f) == sims' = Put(sims, i, f) /\ UNCHANGED <<known, defs, docs, ran, tm>>
Dump(i, d) == docs' = Put(docs, d, sims[i]) /\ UNCHANGED <<known, defs, sims, ran, tm>>
\* Simulation i is unaffected by being dumped, or run
SameBad(i, f) == If(f # sims[i], "simulation-modified")
\* Loading document d, with other values for some fields
LoadBad(d, o, f) ==
  LET want == Override(docs[d], o) IN
  If(Names(f) # Names(want), "other-fields") \cup
  {"another-" \o n : n \in {x \in Names(f) \cap Names(want) : {p \in f : p[1] = x} # {p \in want : p[1] = x}}}
\* The results only depend on what is in the document
Results(i, r) == ran' = Put(ran, sims[i], r) /\ UNCHANGED <<known, defs, sims, docs, tm>>
ResultsBad(i, r) == If(sims[i] \in DOMAIN ran /\ ran[sims[i]] # r, "other-results")

\* Names that lead nowhere, and templates that are not valid
RefusedBad(yes) == If(~yes, "accepted-without-meaning")

(* ---- Templates: rs is the sequence of configurations that a file with them expands to.
   A document that is not a template is one without lists, and an empty sample.  *)
Template(t) == tm' = Append(tm, t) /\ UNCHANGED <<known, defs, sims, docs, ran>>
Clear == tm' = <<>> /\ UNCHANGED <<known, defs, sims, docs, ran>>
Sample(t, i) == {<<t.bounds[j], t.samples[i][j]>> : j \in DOMAIN t.bounds}
Expansions == UNION {{<<k, c, i>> : c \in Choices(tm[k].lists), i \in DOMAIN tm[k].samples} : k \in DOMAIN tm}
Expected(e) == Override(tm[e[1]].fixed, e[2] \cup Sample(tm[e[1]], e[3]))
ExpandBad(rs) ==
  If(Len(rs) # Cardinality(Expansions), "wrong-number-of-configurations") \cup
  If(\E i \in DOMAIN rs : \A e \in Expansions : Expected(e) # rs[i], "unexpected-configuration") \cup
  If(\E e \in Expansions : Cardinality({i \in DOMAIN rs : rs[i] = Expected(e)}) # Cardinality({g \in Expansions : Expected(g) = Expected(e)}), "configuration-missing-or-repeated")
=============================================================================
