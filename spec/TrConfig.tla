------------------------------ MODULE TrConfig ------------------------------
(* Validation of the traces of harness/drv_config.py against Config. *)
EXTENDS Config, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)

VARIABLES tid, l, ok
tvars == <<vars, tid, l, ok>>

Cfg == Traces[tid].cfg
Ev == Traces[tid].ev

P(q) == {<<q[i][1], q[i][2]>> : i \in DOMAIN q}
Ps(q) == [i \in DOMAIN q |-> P(q[i])]
Tm(t) == [t EXCEPT !.lists = [i \in DOMAIN @ |-> <<@[i][1], Rng(@[i][2])>>], !.fixed = P(@)]

EvBad(e) ==
  CASE e.k = "define"   -> {}
    [] e.k = "knowing"  -> {}
    [] e.k = "name"     -> NameBad(e.c, e.n)
    [] e.k = "resolve"  -> ResolveBad(e.n, e.c)
    [] e.k = "recover"  -> RecoverBad(e.v, e.r)
    [] e.k = "make"     -> {}
    [] e.k = "dump"     -> {}
    [] e.k = "same"     -> SameBad(e.i, P(e.f))
    [] e.k = "load"     -> LoadBad(e.d, P(e.o), P(e.f))
    [] e.k = "results"  -> ResultsBad(e.i, e.r)
    [] e.k = "template" -> {}
    [] e.k = "clear"    -> {}
    [] e.k = "expand"   -> ExpandBad(Ps(e.rs))
    [] e.k = "refused"  -> RefusedBad(e.yes)
    [] OTHER -> {"unexpected-" \o e.k}

EvDo(e) ==
  \/ e.k = "define"   /\ Define(e.m, e.x, e.c)
  \/ e.k = "knowing"  /\ Knowing(e.kn)
  \/ e.k = "make"     /\ Make(e.i, P(e.f))
  \/ e.k = "dump"     /\ Dump(e.i, e.d)
  \/ e.k = "results"  /\ Results(e.i, e.r)
  \/ e.k = "template" /\ Template(Tm(e.t))
  \/ e.k = "clear"    /\ Clear
  \/ e.k \in {"name", "resolve", "recover", "same", "load", "expand", "refused"} /\ UNCHANGED vars

TInit == /\ tid \in 1..Len(Traces)
         /\ ConInit(<<"builtins", "soil">>)
         /\ l = 1 /\ ok = TRUE

Accept == /\ ok /\ l = Len(Ev) + 1
          /\ PrintT(<<"VERDICT", Traces[tid].id, "ACCEPT", l, {}>>)
          /\ ok' = FALSE /\ UNCHANGED <<vars, tid, l>>
Reject == /\ ok /\ l <= Len(Ev) /\ EvBad(Ev[l]) # {}
          /\ PrintT(<<"VERDICT", Traces[tid].id, "REJECT", l, EvBad(Ev[l])>>)
          /\ ok' = FALSE /\ UNCHANGED <<vars, tid, l>>
Match  == /\ ok /\ l <= Len(Ev) /\ EvBad(Ev[l]) = {}
          /\ EvDo(Ev[l]) /\ l' = l + 1 /\ UNCHANGED <<tid, ok>>

TNext == Accept \/ Reject \/ Match
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
