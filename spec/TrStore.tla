------------------------------ MODULE TrStore ------------------------------
(* Validation of the traces of harness/drv_store.py against Store. *)
EXTENDS Store, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)

VARIABLES tid, l, ok
tvars == <<vars, tid, l, ok>>

Cfg == Traces[tid].cfg
Ev == Traces[tid].ev

Fn(q) == [p \in {q[i][1] : i \in DOMAIN q} |-> q[CHOOSE i \in DOMAIN q : q[i][1] = p][2]]
R(e) == [e EXCEPT !.csv = Fn(@), !.nets = Fn(@)]

EvBad(e) ==
  CASE e.k = "run"   -> RunBad(R(e))
    [] e.k = "disk"  -> DiskBad(e.h)
    [] e.k = "db"    -> DbBad(e.p, e.there, e.c)
    [] e.k = "backs" -> BacksBad(e.p, e.cs)
    [] e.k = "read"  -> ReadBad(e.p, e.c)
    [] e.k = "csv"   -> CsvBad(e.p, e.there, e.b)
    [] e.k = "net"   -> NetBad(e.p, e.there, e.g)
    [] e.k = "kept"  -> KeptBad(e.p, e.gs)
    [] e.k = "cols"  -> ColsBad(e.want, e.got)
    [] OTHER -> {"unexpected-" \o e.k}

EvDo(e) ==
  \/ e.k = "run"   /\ Run(R(e))
  \/ e.k = "disk"  /\ Disk(e.h)
  \/ e.k \in {"db", "backs", "read", "csv", "net", "kept", "cols"} /\ UNCHANGED vars

TInit == /\ tid \in 1..Len(Traces)
         /\ SInit
         /\ l = 1 /\ ok = TRUE

Accept == /\ ok /\ l = Len(Ev) + 1
          /\ PrintT(<<"VERDICT", Traces[tid].id, "ACCEPT", l, {}>>)
          /\ ok' = FALSE /\ UNCHANGED <<vars, tid, l>>
Reject == /\ ok /\ l <= Len(Ev) /\ EvBad(Ev[l]) # {}
          /\ PrintT(<<"VERDICT", Traces[tid].id, "REJECT", l, EvBad(Ev[l])>>)
          /\ ok' = FALSE /\ UNCHANGED <<vars, tid, l>>
Match  == /\ ok /\ l <= Len(Ev) /\ EvBad(Ev[l]) = {}
          /\ EvDo(Ev[l]) /\ l' = l + 1 /\ UNCHANGED <<tid, ok>>

TNext == Accept \/ Reject \/ Match
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
