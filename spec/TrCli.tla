------------------------------ MODULE TrCli ------------------------------
(* Validation of the traces of harness/drv_cli.py against Cli. *)
EXTENDS Cli, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)

VARIABLES tid, l, ok
tvars == <<vars, tid, l, ok>>

Cfg == Traces[tid].cfg
Ev == Traces[tid].ev

P(q) == {<<q[i][1], q[i][2]>> : i \in DOMAIN q}
Mx(q) == [i \in DOMAIN q |-> <<q[i][1], Rng(q[i][2])>>]
Ss(q) == [i \in DOMAIN q |-> [q[i] EXCEPT !.p = P(@), !.m = Mx(@)]]
Ds(q) == Ss(q)
O(o) == [o EXCEPT !.set = P(@), !.kinds = Rng(@)]
Fs(q) == {<<q[i][1], q[i][2], q[i][3]>> : i \in DOMAIN q}

EvBad(e) ==
  CASE e.k = "invoke"  -> {}
    [] e.k = "ref"     -> {}
    [] e.k = "model"   -> ModelBad(e.c, P(e.p), e.i, e.n, e.d)
    [] e.k = "results" -> If(e.n # Cardinality(want), "results-missing")
    [] e.k = "exit"    -> ExitBad(Fs(e.fs), Ds(e.docs))
    [] e.k = "failed"  -> FailedBad(e.yes)
    [] e.k = "modules" -> ModulesBad(e.given, e.found)
    [] e.k = "csv"     -> CsvBad(e.n, e.u)
    [] OTHER -> {"unexpected-" \o e.k}

EvDo(e) ==
  \/ e.k = "invoke"  /\ Invoke(Ss(e.sims), O(e.o), e.inorder)
  \/ e.k = "ref"     /\ Ref(e.seed, P(e.p), e.i, e.d)
  \/ e.k = "model"   /\ Model(e.c, P(e.p), e.i, e.n, e.d)
  \/ e.k = "exit"    /\ Exit
  \/ e.k = "failed"  /\ (IF e.yes THEN Crash ELSE UNCHANGED vars)
  \/ e.k \in {"results", "modules", "csv"} /\ UNCHANGED vars

TInit == /\ tid \in 1..Len(Traces)
         /\ CInit
         /\ l = 1 /\ ok = TRUE

Accept == /\ ok /\ l = Len(Ev) + 1
          /\ PrintT(<<"VERDICT", Traces[tid].id, "ACCEPT", l, {}>>)
          /\ ok' = FALSE /\ UNCHANGED <<vars, tid, l>>
Reject == /\ ok /\ l <= Len(Ev) /\ EvBad(Ev[l]) # {}
          /\ PrintT(<<"VERDICT", Traces[tid].id, "REJECT", l, EvBad(Ev[l])>>)
          /\ ok' = FALSE /\ UNCHANGED <<vars, tid, l>>
Match  == /\ ok /\ l <= Len(Ev) /\ EvBad(Ev[l]) = {}
          /\ EvDo(Ev[l]) /\ l' = l + 1 /\ UNCHANGED <<tid, ok>>

TNext == Accept \/ Reject \/ Match
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
