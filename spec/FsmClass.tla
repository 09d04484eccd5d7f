------------------------------ MODULE FsmClass ------------------------------
(* Chains of FSM classes (soil/agents/fsm.py, MetaFSM and FSM.__init__).

   chain[c] is the sequence of states that class c defines in its body, each of
   them with a name and whether it is marked as default; class c inherits from
   class c - 1, and class 1 from FSM, which defines `dead`.                   *)
EXTENDS Kit

VARIABLES
  chain,
  st        \* agent -> [cls, st]
vars == <<chain, st>>

Own(c) == {chain[c][i].name : i \in DOMAIN chain[c]}
Names(c) == UNION {Own(k) : k \in 1..c} \cup {"dead"}
\* The class whose version of state s is used by class c
Version(c, s) == IF \E k \in 1..c : s \in Own(k) THEN SetMax({k \in 1..c : s \in Own(k)}) ELSE 0
Marks(c) == {chain[c][i].name : i \in {i \in DOMAIN chain[c] : chain[c][i].default}}
Default(c) == IF \E k \in 1..c : Marks(k) # {}
              THEN CHOOSE s \in Marks(SetMax({k \in 1..c : Marks(k) # {}})) : TRUE
              ELSE ""

CInit(ch) == chain = ch /\ st = <<>>

\* The list of states of a class
StatesBad(c, ss) == If(Rng(ss) # Names(c) \/ ~NoDup(ss), "wrong-states")

Initial(c, sid) == IF sid # "" THEN sid ELSE Default(c)
Valid(c, sid) == IF sid # "" THEN sid \in Names(c) ELSE Default(c) # "" \/ Names(c) = {"dead"}

\* An agent of class c is created (with a state id, unless it is "")
MakeBad(c, sid, res, s) ==
  CASE ~Valid(c, sid) -> If(res # "ValueError", "invalid-initial-state-is-accepted")
    [] OTHER -> If(res # "ok", "valid-initial-state-is-refused") \cup
                If(res = "ok" /\ s # Initial(c, sid), "wrong-initial-state")
Make(a, c, sid, res, s) ==
  /\ MakeBad(c, sid, res, s) = {}
  /\ st' = IF res = "ok" THEN Put(st, a, [cls |-> c, st |-> s]) ELSE st
  /\ UNCHANGED chain

\* The agent is activated: the version v of state s runs, and the agent goes to state n
RanBad(a, s, v, n) ==
  If(s # st[a].st, "function-of-another-state-runs") \cup
  If(v # Version(st[a].cls, s), "another-version-of-the-state-runs")
Ran(a, s, v, n) ==
  /\ RanBad(a, s, v, n) = {}
  /\ st' = [st EXCEPT ![a].st = n]
  /\ UNCHANGED chain
\* The state is set by hand: only at the beginning (time 0), and to one of the states
SetBad(a, t, s, res) ==
  LET valid == t = 0 /\ s \in Names(st[a].cls) IN
  If(valid /\ res # "ok", "valid-initial-state-is-refused") \cup
  If(~valid /\ res # "ValueError", "state-set-at-a-wrong-time-or-to-an-unknown-one")
Set(a, t, s, res) ==
  /\ SetBad(a, t, s, res) = {}
  /\ st' = IF res = "ok" THEN [st EXCEPT ![a].st = s] ELSE st
  /\ UNCHANGED chain
\* After an activation in state s: its function has run once (unless it is that of FSM)
ActedBad(a, s, times) == If(times # (IF Version(st[a].cls, s) = 0 THEN 0 ELSE 1), "function-of-the-state-does-not-run-once")
IdBad(a, s) == If(s # st[a].st, "wrong-state-id")
-----------------------------------------------------------------------------
CONSTANTS Ids, MaxDepth
Bodies == {q \in UNION {[1..n -> [name : Ids, default : BOOLEAN]] : n \in 0..2} :
             /\ \A i, j \in DOMAIN q : i # j => q[i].name # q[j].name
             /\ Cardinality({i \in DOMAIN q : q[i].default}) <= 1}
MCInit == \E n \in 1..MaxDepth : \E ch \in [1..n -> Bodies] : CInit(ch)
MCMake == \E c \in DOMAIN chain, sid \in Ids \cup {"", "dead"} :
             /\ st = <<>>
             /\ \/ Make(1, c, sid, "ok", Initial(c, sid)) \/ Make(1, c, sid, "ValueError", "")
MCRan == \E a \in DOMAIN st, n \in Ids : n \in Names(st[a].cls) /\ Ran(a, st[a].st, Version(st[a].cls, st[a].st), n)
MCSet == \E a \in DOMAIN st, s \in Ids \cup {"dead"}, t \in {0, 1}, res \in {"ok", "ValueError"} : Set(a, t, s, res)
MCNext == MCMake \/ MCRan \/ MCSet
MCSpec == MCInit /\ [][MCNext]_vars
\* C07
Inherited == \A c \in DOMAIN chain : c > 1 => Names(c - 1) \subseteq Names(c)
Closest == \A c \in DOMAIN chain : \A s \in Own(c) : Version(c, s) = c
DefaultKept == \A c \in DOMAIN chain : c > 1 /\ Marks(c) = {} => Default(c) = Default(c - 1)
InNames == \A a \in DOMAIN st : st[a].st \in Names(st[a].cls) \cup {""}
=============================================================================
