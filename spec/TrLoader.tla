------------------------------ MODULE TrLoader ------------------------------
(* Validation of the traces of harness/drv_loader.py against Loader. *)
EXTENDS Loader, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)

VARIABLES tid, l, ok
tvars == <<vars, tid, l, ok>>

Cfg == Traces[tid].cfg
Ev == Traces[tid].ev

P(q) == {<<q[i][1], q[i][2]>> : i \in DOMAIN q}
Mx(q) == [i \in DOMAIN q |-> <<q[i][1], Rng(q[i][2])>>]
S(s) == [f |-> P(s.f), p |-> P(s.p), m |-> Mx(s.m)]
Ss(q) == [i \in DOMAIN q |-> S(q[i])]
O(o) == [f |-> P(o.f), p |-> [i \in DOMAIN o.p |-> P(o.p[i])], m |-> [i \in DOMAIN o.m |-> Mx(o.m[i])]]

EvBad(e) ==
  CASE e.k = "open"    -> {}
    [] e.k = "next"    -> {}
    [] e.k = "def"     -> {}
    [] e.k = "alias"   -> {}
    [] e.k = "del"     -> {}
    [] e.k = "runs"    -> {}
    [] e.k = "class"   -> {}
    [] e.k = "fail"    -> {}
    [] e.k = "result"  -> ResultBad(Ss(e.r))
    [] e.k = "first"   -> FirstBad(S(e.s))
    [] e.k = "failed"  -> FailedBad(e.same)
    [] e.k = "loaded"  -> {}
    [] e.k = "intact"  -> If(~e.yes, "configuration-changed-by-loading-it")
    [] e.k = "run"     -> {}
    [] e.k = "made"    -> MadeBad(e.c, P(e.p))
    [] e.k = "done"    -> DoneBad(e.n, e.x)
    [] e.k = "guard"   -> {}
    [] e.k = "unguard" -> {}
    [] e.k = "runall"  -> {}
    [] e.k = "ran"     -> RanBad(e.fine, e.same)
    [] OTHER -> {"unexpected-" \o e.k}

EvDo(e) ==
  \/ e.k = "open"    /\ Open(O(e.o))
  \/ e.k = "next"    /\ NextFile
  \/ e.k = "def"     /\ Define(e.v, e.i, S(e.s))
  \/ e.k = "alias"   /\ Alias(e.v, e.w)
  \/ e.k = "del"     /\ Forget(e.v)
  \/ e.k = "runs"    /\ Runs(e.i, O(e.o))
  \/ e.k = "class"   /\ Class(S(e.s))
  \/ e.k = "fail"    /\ Fail
  \/ e.k = "result"  /\ Close
  \/ e.k = "first"   /\ Close
  \/ e.k = "failed"  /\ Close
  \/ e.k = "loaded"  /\ Loaded
  \/ e.k = "run"     /\ Run(S(e.s), e.n)
  \/ e.k = "made"    /\ Made(e.c, P(e.p))
  \/ e.k = "done"    /\ Done
  \/ e.k = "guard"   /\ Guard
  \/ e.k = "runall"  /\ RunAll
  \/ e.k = "ran"     /\ Ran
  \/ e.k = "intact"  /\ UNCHANGED vars
  \/ e.k = "unguard" /\ Unguard

TInit == /\ tid \in 1..Len(Traces)
         /\ LoInit
         /\ l = 1 /\ ok = TRUE

Accept == /\ ok /\ l = Len(Ev) + 1
          /\ PrintT(<<"VERDICT", Traces[tid].id, "ACCEPT", l, {}>>)
          /\ ok' = FALSE /\ UNCHANGED <<vars, tid, l>>
Reject == /\ ok /\ l <= Len(Ev) /\ EvBad(Ev[l]) # {}
          /\ PrintT(<<"VERDICT", Traces[tid].id, "REJECT", l, EvBad(Ev[l])>>)
          /\ ok' = FALSE /\ UNCHANGED <<vars, tid, l>>
Match  == /\ ok /\ l <= Len(Ev) /\ EvBad(Ev[l]) = {}
          /\ EvDo(Ev[l]) /\ l' = l + 1 /\ UNCHANGED <<tid, ok>>

TNext == Accept \/ Reject \/ Match
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
