------------------------------- MODULE MCSisa -------------------------------
(* Every choice of probabilities and initial states, with a few networks. *)
EXTENDS Sisa
CONSTANTS Agents, Probs, Nets
Fields == {"neutral_discontent_spon_prob", "neutral_content_spon_prob", "neutral_discontent_infected_prob", "neutral_content_infected_prob",
           "discontent_neutral", "discontent_content", "content_neutral", "content_discontent"}
Line == {{1, 2}, {2, 3}}
Clique == {{1, 2}, {2, 3}, {1, 3}}
MCNets == {Line, Clique}
Vars == {[v_std |-> FALSE, v_dc |-> FALSE, v_cd |-> FALSE], [v_std |-> FALSE, v_dc |-> TRUE, v_cd |-> FALSE]}
MCInit == /\ \E f \in [Fields -> Probs], v \in Vars : q = f @@ v
          /\ st \in [Agents -> States] /\ edges \in Nets
MCNext == \E a \in Agents, t \in States : Move(a, st[a], t)
MCSpec == MCInit /\ [][MCNext]_vars
TypeOK == \A a \in DOMAIN st : st[a] \in States /\ Outcomes(a) # {}
\* The outcome is certain if every probability is zero or one
Certain == (~q.v_dc /\ \A f \in Fields : q[f] \in {0, 4}) => \A a \in DOMAIN st : Cardinality(Outcomes(a)) = 1
\* Nobody becomes discontent without a reason
Cause == [][\A a \in DOMAIN st : (st'[a] = "discontent" /\ st[a] # "discontent") =>
   \/ (st[a] = "neutral" /\ q.neutral_discontent_spon_prob > 0)
   \/ (st[a] = "neutral" /\ q.neutral_discontent_infected_prob > 0 /\ Near(a, "discontent") > 0)
   \/ (st[a] = "content" /\ q.content_discontent > 0 /\ Near(a, "discontent") > 0)]_vars
CauseC == [][\A a \in DOMAIN st : (st'[a] = "content" /\ st[a] # "content") =>
   \/ (st[a] = "neutral" /\ q.neutral_content_spon_prob > 0)
   \/ (st[a] = "neutral" /\ q.neutral_content_infected_prob > 0 /\ Near(a, "content") > 0)
   \/ (st[a] = "discontent" /\ (q.discontent_content > 0 \/ q.v_dc) /\ Near(a, "content") > 0)]_vars
\* Healing comes first
Heal == [][\A a \in DOMAIN st : st'[a] # st[a] =>
   /\ (st[a] = "discontent" /\ q.discontent_neutral >= 4) => st'[a] = "neutral"
   /\ (st[a] = "content" /\ q.content_neutral >= 4) => st'[a] = "neutral"]_vars
=============================================================================
