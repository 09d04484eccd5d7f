------------------------------- MODULE GenCli -------------------------------
(* All the sets of options. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
VARIABLE h
Options == {"seed", "iterations", "max_time", "max_steps", "set", "output", "exporter", "csv", "graph", "no-dump", "dry-run", "only-convert"}
GInit == h = "start"
GNext == /\ h = "start" /\ h' = "end"
         /\ \A S \in SUBSET Options : PrintT("SCEN " \o ToJson(S))
GSpec == GInit /\ [][GNext]_h
=============================================================================
