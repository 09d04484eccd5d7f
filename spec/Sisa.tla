-------------------------------- MODULE Sisa --------------------------------
(* The SISa model of epidemics (soil/agents/SISaModel.py).

   Probabilities are given in quarters: 0 is never, 4 or more is always, and
   anything in between is a choice.  The parameters are those of the model, and whether
   they have some variance (v_std, v_dc, v_cd).                                *)
EXTENDS Kit

States == {"neutral", "discontent", "content"}

VARIABLES
  st,      \* agent -> state
  edges,   \* set of sets of two agents
  q        \* probabilities of the model
vars == <<st, edges, q>>

SInit(c) == st = <<>> /\ edges = {} /\ q = c

Near(a, s) == Cardinality({b \in DOMAIN st : b # a /\ {a, b} \in edges /\ st[b] = s})

(* The results of trying a sequence of transitions <<probability, state>>, one after
   another, until one of them happens; or else s *)
RECURSIVE Try(_, _)
Try(ts, s) ==
  IF ts = <<>> THEN {s}
  ELSE IF ts[1][1] <= 0 THEN Try(Tail(ts), s)
  ELSE IF ts[1][1] >= 4 THEN {ts[1][2]}
  ELSE {ts[1][2]} \cup Try(Tail(ts), s)

\* The probability of a transition that depends on n neighbors (or on none: n = 1), if
\* its parameter has some variance (anything may happen, unless there are no neighbors)
P(n, x, unsure) == IF n = 0 THEN 0 ELSE IF unsure THEN 2 ELSE n * x

Outcomes(a) ==
  LET d == Near(a, "discontent")  c == Near(a, "content") IN
  CASE st[a] = "neutral" ->
         Try(<< <<P(1, q.neutral_discontent_spon_prob, q.v_std), "discontent">>,
                <<P(1, q.neutral_content_spon_prob, q.v_std), "content">>,
                <<P(d, q.neutral_discontent_infected_prob, q.v_std), "discontent">>,
                <<P(c, q.neutral_content_infected_prob, q.v_std), "content">> >>, "neutral")
    [] st[a] = "discontent" ->
         Try(<< <<P(1, q.discontent_neutral, q.v_std), "neutral">>,
                <<P(c, q.discontent_content, q.v_dc), "content">> >>, "discontent")
    [] st[a] = "content" ->
         Try(<< <<P(1, q.content_neutral, q.v_std), "neutral">>,
                <<P(d, q.content_discontent, q.v_cd), "discontent">> >>, "content")

\* A new agent, without neighbors
Join(a, s) == st' = Put(st, a, s) /\ UNCHANGED <<edges, q>>
Leave(a) == st' = Drop(st, {a}) /\ edges' = {e \in edges : a \notin e} /\ UNCHANGED q
Connect(a, b) == edges' = edges \cup {{a, b}} /\ UNCHANGED <<st, q>>
Cut(a, b) == edges' = edges \ {{a, b}} /\ UNCHANGED <<st, q>>
\* Somebody else changes its state
Force(a, s) == st' = [st EXCEPT ![a] = s] /\ UNCHANGED <<edges, q>>

\* Agent a, in state s, moves to state t
MoveBad(a, s, t) ==
  If(a \notin DOMAIN st, "activation-of-an-agent-that-is-gone") \cup
  If(a \in DOMAIN st /\ st[a] # s, "state-changed-between-activations") \cup
  If(a \in DOMAIN st /\ st[a] = s /\ t \notin Outcomes(a), "transition-from-" \o s)
Move(a, s, t) == MoveBad(a, s, t) = {} /\ st' = [st EXCEPT ![a] = t] /\ UNCHANGED <<edges, q>>
=============================================================================
