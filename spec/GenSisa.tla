------------------------------- MODULE GenSisa -------------------------------
(* All the choices of probabilities. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANT Probs
VARIABLE h
Fields == {"neutral_discontent_spon_prob", "neutral_content_spon_prob", "neutral_discontent_infected_prob", "neutral_content_infected_prob",
           "discontent_neutral", "discontent_content", "content_neutral", "content_discontent"}
GInit == h = "start"
GNext == /\ h = "start" /\ h' = "end"
         /\ \A f \in [Fields -> Probs] : PrintT("SCEN " \o ToJson(f))
GSpec == GInit /\ [][GNext]_h
=============================================================================
