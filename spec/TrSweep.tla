------------------------------ MODULE TrSweep ------------------------------
(* Validation of the traces of harness/drv_sweep.py against Sweep. *)
EXTENDS Sweep, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)

VARIABLES tid, l, ok
tvars == <<vars, tid, l, ok>>

Cfg == Traces[tid].cfg
Ev == Traces[tid].ev

P(q) == {<<q[i][1], q[i][2]>> : i \in DOMAIN q}
Mx(q) == [i \in DOMAIN q |-> <<q[i][1], Rng(q[i][2])>>]
Reps(q) == {<<<<q[i][1][1], q[i][1][2]>>, Rng(q[i][2])>> : i \in DOMAIN q}
Res(q) == [i \in DOMAIN q |-> [q[i] EXCEPT !.c = P(@), !.cols = Rng(@)]]
Once == \A e, f \in DOMAIN made : made[e] = made[f] => e = f
UniqueIds == \A c, d \in DOMAIN ids : ids[c] = ids[d] => c = d

EvBad(e) ==
  CASE e.k = "begin"    -> {}
    [] e.k = "start"    -> StartBad(e.x)
    [] e.k = "made"     -> MakeBad(P(e.c), e.i, e.e)
    [] e.k = "told"     -> TellBad(e.x, e.e, P(e.c), e.i, e.pid, e.done)
    [] e.k = "end"      -> EndBad(e.x)
    [] e.k = "returned" -> ReturnBad(Res(e.res))
    [] e.k = "same"     -> SameBad(e.same)
    [] OTHER -> {"unexpected-" \o e.k}

EvDo(e) ==
  \/ e.k = "begin"    /\ Begin(P(e.fixed), Mx(e.matrix), e.n, Rng(e.exps), Rng(e.mr), Reps(e.reps))
  \/ e.k = "start"    /\ Start(e.x)
  \/ e.k = "made"     /\ Make(P(e.c), e.i, e.e)
  \/ e.k = "told"     /\ Tell(e.x, e.e, P(e.c), e.i, e.pid, e.done)
  \/ e.k = "end"      /\ End(e.x)
  \/ e.k = "returned" /\ Return(Res(e.res))
  \/ e.k \in {"same"} /\ UNCHANGED vars

TInit == /\ tid \in 1..Len(Traces)
         /\ WInit
         /\ l = 1 /\ ok = TRUE

Accept == /\ ok /\ l = Len(Ev) + 1
          /\ PrintT(<<"VERDICT", Traces[tid].id, "ACCEPT", l, {}>>)
          /\ ok' = FALSE /\ UNCHANGED <<vars, tid, l>>
Reject == /\ ok /\ l <= Len(Ev) /\ EvBad(Ev[l]) # {}
          /\ PrintT(<<"VERDICT", Traces[tid].id, "REJECT", l, EvBad(Ev[l])>>)
          /\ ok' = FALSE /\ UNCHANGED <<vars, tid, l>>
Match  == /\ ok /\ l <= Len(Ev) /\ EvBad(Ev[l]) = {}
          /\ EvDo(Ev[l]) /\ l' = l + 1 /\ UNCHANGED <<tid, ok>>

TNext == Accept \/ Reject \/ Match
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
