------------------------------ MODULE Collect ------------------------------
(* Data collection (soil/datacollection.py, soil/environment.py: step,
   add_model_reporter, add_agent_reporter, model_df and agent_df).

   A record has the time, the value of each reporter of the model (function
   from names to values), and that of each agent reporter for each agent.      *)
EXTENDS Kit

VARIABLES recs,   \* what has been true at each moment of collection
          steps,
          tabs    \* table -> the rows that have been added to it, in order
vars == <<recs, steps, tabs>>

KInit == recs = <<>> /\ steps = 0 /\ tabs = <<>>

\* The tables of the user
AddRow(t, r) == tabs' = Put(tabs, t, Append(IF t \in DOMAIN tabs THEN tabs[t] ELSE <<>>, r)) /\ UNCHANGED <<recs, steps>>
TableBad(t, rows) ==
  LET e == IF t \in DOMAIN tabs THEN tabs[t] ELSE <<>> IN
  If(Len(rows) < Len(e), "row-of-a-table-lost") \cup
  If(Len(rows) > Len(e), "row-of-a-table-from-nowhere") \cup
  If(Len(rows) = Len(e) /\ rows # e, "other-values-in-a-table")

\* The model is ready (first record) or has performed a step
MomentBad(r) == If(recs # <<>> /\ r.t < recs[Len(recs)].t, "clock-goes-back")
Moment(r) == /\ MomentBad(r) = {}
             /\ recs' = Append(recs, r)
             /\ steps' = IF recs = <<>> THEN 0 ELSE steps + 1
             /\ UNCHANGED tabs

(* The data of the model: a sequence of rows [i: index, v: values].  The index is
   the time, or the number of the step.                                       *)
ModelDataBad(rows, bystep, cols) ==
  IF Len(rows) # Len(recs) THEN {"one-record-per-step-and-one-for-the-start"}
  ELSE If(\E i \in DOMAIN rows : rows[i].i # (IF bystep THEN i - 1 ELSE recs[i].t), "record-with-another-time") \cup
       If(recs # <<>> /\ ~(DOMAIN recs[1].m \subseteq cols), "reporter-missing") \cup
       If(\E i \in DOMAIN rows : \E c \in DOMAIN recs[i].m \cap cols : rows[i].v[c] # recs[i].m[c], "wrong-value-of-the-model")

(* The data of the agents: a sequence of rows [i: index, a: agent, v: values].
   Several records may have the same time.                                    *)
At(rows, bystep, k) == {j \in DOMAIN rows : rows[j].i = k}
Moments(bystep, k) == IF bystep THEN {k + 1} ELSE {i \in DOMAIN recs : recs[i].t = k}
Expected(M) == Cardinality(UNION {{i} \X DOMAIN recs[i].g : i \in M})
AgentDataBad(rows, bystep) ==
  LET idx == IF bystep THEN {i - 1 : i \in DOMAIN recs} ELSE {recs[i].t : i \in DOMAIN recs} IN
  If(\E j \in DOMAIN rows : rows[j].i \notin idx, "record-with-another-time") \cup
  UNION { LET R == At(rows, bystep, k)
              M == Moments(bystep, k)
              agents == UNION {DOMAIN recs[i].g : i \in M} IN
          If(\E j \in R : rows[j].a \notin agents, "row-for-an-agent-that-is-not-in-the-schedule") \cup
          If(Cardinality(R) < Expected(M), "agent-without-its-row") \cup
          If(Cardinality(R) > Expected(M), "repeated-row") \cup
          If(\E j \in R : rows[j].a \in agents /\
                ~\E i \in M : rows[j].a \in DOMAIN recs[i].g /\ rows[j].v = recs[i].g[rows[j].a], "wrong-value-of-an-agent") \cup
          If(\E i \in M : \E a \in DOMAIN recs[i].g : ~\E j \in R : rows[j].a = a /\ rows[j].v = recs[i].g[a], "wrong-value-of-an-agent")
        : k \in idx }
-----------------------------------------------------------------------------
CONSTANTS MaxSteps
Rec(t, x) == [t |-> t, m |-> [x |-> x], g |-> [a \in 1..x |-> [y |-> x]]]
MCNext == \/ \E t \in {0, 1, 2, 3}, x \in 0..2 : steps < MaxSteps /\ Moment(Rec(t, x))
          \/ \E t \in {"t", "u"}, r \in 1..2 : (IF t \in DOMAIN tabs THEN Len(tabs[t]) < 2 ELSE TRUE) /\ AddRow(t, r)
MCSpec == KInit /\ [][MCNext]_vars
Rows(bystep) == [i \in DOMAIN recs |-> [i |-> IF bystep THEN i - 1 ELSE recs[i].t, v |-> recs[i].m]]
\* The data of the very records is accepted, and that of any other history is not
Faithful == /\ ModelDataBad(Rows(TRUE), TRUE, {"x"}) = {} /\ ModelDataBad(Rows(FALSE), FALSE, {"x"}) = {}
            /\ recs # <<>> => /\ ModelDataBad(Tail(Rows(TRUE)), TRUE, {"x"}) # {}
                              /\ ModelDataBad(Append(Rows(FALSE), Rows(FALSE)[1]), FALSE, {"x"}) # {}
TablesFaithful == \A t \in DOMAIN tabs : TableBad(t, tabs[t]) = {} /\ TableBad(t, Tail(tabs[t])) # {} /\
                     (\A u \in DOMAIN tabs : tabs[u] # tabs[t] => TableBad(u, tabs[t]) # {})
OnePerStep == recs # <<>> => Len(recs) = steps + 1
=============================================================================
