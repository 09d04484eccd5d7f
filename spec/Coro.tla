-------------------------------- MODULE Coro --------------------------------
(* Agents whose behaviour is a coroutine (soil/agents/__init__.py,
   decorate_generator_step; soil/agents/fsm.py, State.step).

   The program of an agent is a set of states (only one, for agents that are not
   FSMs).  A state is a sequence of segments, the pieces of code between two
   suspension points: segs[i] is the delay that is asked for when segment i
   finishes (0: none).  When the last one finishes the coroutine has ended: its
   delay is the value that was returned, and the agent goes on with the first
   segment of the state `next`.
   `acc` stands for the local variables of the coroutine: they start at zero and
   segment i makes them 2 * acc + i (mod M).                                     *)
EXTENDS Kit

VARIABLES
  prog,   \* agent -> [init, states: name -> [segs, next]]
  dflt,   \* default interval
  st,     \* agent -> current state
  pc,     \* agent -> next segment
  acc,    \* agent -> local variables
  wake    \* agent -> time of the next activation
vars == <<prog, dflt, st, pc, acc, wake>>

CInit(d) == /\ dflt = d /\ prog = <<>> /\ st = <<>> /\ pc = <<>> /\ acc = <<>> /\ wake = <<>>

StartBad(a) == If(a \in DOMAIN prog, "agent-added-twice")
Start(a, p, t) ==
  /\ StartBad(a) = {}
  /\ prog' = Put(prog, a, p) /\ st' = Put(st, a, p.init) /\ pc' = Put(pc, a, 1)
  /\ acc' = Put(acc, a, 0) /\ wake' = Put(wake, a, t)
  /\ UNCHANGED dflt

Segs(a) == prog[a].states[st[a]].segs

\* Segment i of state s runs at time t, and sees local variables x
SegBad(a, s, i, x, t) ==
  IF a \notin DOMAIN prog THEN {"unknown-agent-acts"}
  ELSE If(s # st[a], "resumed-in-another-state") \cup
       If(i # pc[a], "resumed-at-another-point") \cup
       If(x # acc[a], "local-variables-changed") \cup
       If(t # wake[a], "resumed-at-another-time")

Seg(a, s, i, x, t) ==
  /\ SegBad(a, s, i, x, t) = {}
  /\ LET d == Segs(a)[i]
         last == i = Len(Segs(a))
     IN /\ wake' = [wake EXCEPT ![a] = IF d = Inf THEN Inf ELSE t + (IF d = 0 THEN dflt ELSE d)]
        /\ pc' = [pc EXCEPT ![a] = IF last THEN 1 ELSE i + 1]
        /\ acc' = [acc EXCEPT ![a] = IF last THEN 0 ELSE (2 * acc[a] + i) % 1000003]
        /\ st' = [st EXCEPT ![a] = IF last THEN prog[a].states[st[a]].next ELSE st[a]]
  /\ UNCHANGED <<prog, dflt>>

\* Segment i fails (it raises an exception, which somebody catches): the coroutine has ended.
\* The agent is activated again after the default interval, and starts again
BreakBad(a, s, i, x, t) == SegBad(a, s, i, x, t)
Break(a, s, i, x, t) ==
  /\ BreakBad(a, s, i, x, t) = {}
  /\ wake' = [wake EXCEPT ![a] = t + dflt]
  /\ pc' = [pc EXCEPT ![a] = 1]
  /\ acc' = [acc EXCEPT ![a] = 0]
  /\ UNCHANGED <<prog, dflt, st>>

\* A class is defined, with a step of some kind: those that mix await and yield, or are not functions, are refused
DefineBad(w, refused) == If((w \in {"mixed", "number", "text"}) # refused, IF refused THEN "valid-step-is-refused" ELSE "illegal-step-is-accepted")

\* The clock is at t: everybody has been resumed in time
ClockBad(t) == If(\E a \in DOMAIN wake : wake[a] < t, "agent-not-resumed")
-----------------------------------------------------------------------------
CONSTANTS Agents, Waits, MaxT

States1 == {"s1"}
Progs == {[init |-> "s1", states |-> ("s1" :> [segs |-> q, next |-> "s1"])] :
             q \in UNION {[1..n -> Waits] : n \in 1..3}}
         \cup
         {[init |-> "s1", states |-> ("s1" :> [segs |-> q, next |-> "s2"]) @@ ("s2" :> [segs |-> r, next |-> "s1"])] :
             q \in UNION {[1..n -> Waits] : n \in 1..2}, r \in UNION {[1..n -> Waits] : n \in 1..2}}

MCInit == CInit(1)
MCStart == \E a \in Agents \ DOMAIN prog, p \in Progs : Start(a, p, 0)
MCSeg == /\ DOMAIN prog = Agents
         /\ \E a \in Agents :
              /\ wake[a] <= MaxT /\ \A b \in Agents : wake[a] <= wake[b]
              /\ (Seg(a, st[a], pc[a], acc[a], wake[a]) \/ Break(a, st[a], pc[a], acc[a], wake[a]))
MCNext == MCStart \/ MCSeg
MCSpec == MCInit /\ [][MCNext]_vars

RECURSIVE AccAt(_)
AccAt(i) == IF i = 1 THEN 0 ELSE (2 * AccAt(i - 1) + (i - 1)) % 1000003

\* C05: the local variables are those of this execution alone
OwnLocals == \A a \in DOMAIN prog : acc[a] = AccAt(pc[a])
InProgram == \A a \in DOMAIN prog : st[a] \in DOMAIN prog[a].states /\ pc[a] \in 1..Len(Segs(a))
\* One activation is one segment of one agent: the others are not affected
OneAtATime == [][\A a, b \in DOMAIN prog : pc'[a] # pc[a] /\ pc'[b] # pc[b] => a = b]_vars
Sequential == [][\A a \in DOMAIN prog : <<st, pc>>' # <<st, pc>> =>
                    pc'[a] \in {pc[a], pc[a] + 1, 1}]_vars
=============================================================================
