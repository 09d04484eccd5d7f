-------------------------------- MODULE Fsm --------------------------------
(* Transitions of FSM agents (soil/agents/fsm.py, FSM.step).

   In an activation the function of the current state runs (Run) and asks for
   something (Ask): target "" stands for the same state, and delay 0 for none.
   A state may be suspended (Yield): the agent is still in it.                *)
EXTENDS Kit

VARIABLES
  states,   \* names of the states (dead included)
  dflt,
  st,       \* agent -> state
  wake,     \* agent -> time of the next activation (Inf: none)
  busy      \* agent that is being activated, or None
vars == <<states, dflt, st, wake, busy>>

FInit(ss, d) == states = ss /\ dflt = d /\ st = <<>> /\ wake = <<>> /\ busy = None

MakeBad(a, s) == If(s \notin states, "agent-starts-in-an-unknown-state")
Make(a, s, t) == /\ MakeBad(a, s) = {} /\ st' = Put(st, a, s) /\ wake' = Put(wake, a, t)
                 /\ UNCHANGED <<states, dflt, busy>>

\* The function of state s of agent a runs at time t, while its state id is i
RunBad(a, s, i, t) ==
  IF a \notin DOMAIN st THEN {"unknown-agent-acts"}
  ELSE If(s # st[a], "function-of-another-state-runs") \cup
       If(i # st[a], "wrong-state-id") \cup
       If(t # wake[a], "activation-at-another-time") \cup
       If(busy # None, "nested-activation")
RunState(a, s, i, t) == /\ RunBad(a, s, i, t) = {} /\ busy' = a
                   /\ UNCHANGED <<states, dflt, st, wake>>

At(t, d) == IF d = Inf THEN Inf ELSE t + (IF d = 0 THEN dflt ELSE d)

AskBad(a, s, d) == If(busy # a, "nested-activation")
\* The result of the function: a state (or "") and a delay
AskFor(a, s, d) ==
  /\ AskBad(a, s, d) = {}
  /\ st' = [st EXCEPT ![a] = IF s = "" THEN @ ELSE s]
  /\ wake' = [wake EXCEPT ![a] = IF s = "dead" THEN Inf ELSE At(@, d)]
  /\ busy' = None
  /\ UNCHANGED <<states, dflt>>

\* At time zero, the state can also be set by hand
Force(a, s) == /\ s \in states /\ a \in DOMAIN st
               /\ st' = [st EXCEPT ![a] = s] /\ UNCHANGED <<states, dflt, wake, busy>>

Yield(a, d) == /\ AskBad(a, "", d) = {}
               /\ wake' = [wake EXCEPT ![a] = At(@, d)] /\ busy' = None
               /\ UNCHANGED <<states, dflt, st>>

\* The state id of an agent, when nobody is active
IdBad(a, s) == IF a \notin DOMAIN st THEN {"unknown-agent-acts"}
               ELSE If(s # st[a], "transition-not-made-as-asked")

\* A state that does not exist is asked for, outside the schedule: it fails
WrongBad(a, raised, s) ==
  If(~raised, "unknown-state-is-accepted") \cup If(s # st[a], "transition-not-made-as-asked")
Wrong(a, raised, s) == WrongBad(a, raised, s) = {} /\ busy' = None /\ UNCHANGED <<states, dflt, st, wake>>

\* step() called by hand returns the delay that the agent asks for
DirectBad(a, s, d, rs, rd) ==
  If(rs # (IF s = "" THEN st[a] ELSE s), "transition-not-made-as-asked") \cup
  If(rd # d, "wrong-delay")
Direct(a, s, d, rs, rd) ==
  /\ DirectBad(a, s, d, rs, rd) = {}
  /\ st' = [st EXCEPT ![a] = rs] /\ busy' = None /\ UNCHANGED <<states, dflt, wake>>

ClockBad(t) == If(\E a \in DOMAIN wake : wake[a] < t, "activation-missed")
-----------------------------------------------------------------------------
CONSTANTS Agents, Names, Delays, MaxT
MCInit == FInit(Names \cup {"dead"}, 1)
MCMake == \E a \in Agents \ DOMAIN st, s \in Names : Make(a, s, 0)
MCRunS == /\ DOMAIN st = Agents /\ busy = None
          /\ \E a \in Agents : wake[a] <= MaxT /\ (\A b \in Agents : wake[a] <= wake[b]) /\ RunState(a, st[a], st[a], wake[a])
MCAsk == \E s \in states \cup {""}, d \in Delays : busy # None /\ AskFor(busy, s, d)
MCYield == \E d \in Delays : busy # None /\ Yield(busy, d)
MCForce == \E s \in Names : busy # None /\ wake[busy] = 0 /\ Force(busy, s)
MCNext == MCForce \/ MCMake \/ MCRunS \/ MCAsk \/ MCYield
MCSpec == MCInit /\ [][MCNext]_vars
InStates == \A a \in DOMAIN st : st[a] \in states
DeadIsLast == \A a \in DOMAIN st : st[a] = "dead" => wake[a] = Inf
\* Only the active agent changes its state
OnlyActive == [][\A a \in DOMAIN st : st'[a] # st[a] => busy = a]_vars
=============================================================================
