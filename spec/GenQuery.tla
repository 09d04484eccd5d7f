------------------------------ MODULE GenQuery ------------------------------
(* Every combination of kinds of filters and ways of asking, as JSON, for
   harness/drv_query.py.                                                      *)
EXTENDS Integers, Sequences, TLC, Json
VARIABLE done
Forms == {"env", "filter", "agent", "iter", "nb", "nbiter", "count", "acount", "ncount", "one"}
Combos == [form : Forms, ids : {0, 1, 2}, sts : {0, 1, 2}, cls : {0, 1, 2, 3}, ats : {0, 1, 2, 3}, lim : {0, 1, 2}]
GSpec == done = FALSE /\ [][~done /\ done' = TRUE /\ \A c \in Combos : PrintT("SCEN " \o ToJson(c))]_done
=============================================================================
