--------------------------------- MODULE Log ---------------------------------
(* What is logged (log, debug and info of agents, log of environments, and the
   level of simulations, environments and agents).

   Each logger is inside another one (agent, environment, simulation, soil), and
   its level is its own, if it has been set, or else that of the one it is in.
   Nothing else depends on the levels: the result of a run is a function of what
   is run.                                                                    *)
EXTENDS Kit

VARIABLES
  up,      \* logger -> the logger it is in, or "" (soil)
  level,   \* logger -> level, or 0 if it has not been set
  done     \* what has been run -> its results
vars == <<up, level, done>>

LInit == up = ("soil" :> "") /\ level = ("soil" :> 30) /\ done = <<>>

RECURSIVE Effective(_)
Effective(x) == IF level[x] # 0 THEN level[x] ELSE Effective(up[x])

Add(x, p, v) == up' = Put(up, x, p) /\ level' = Put(level, x, v) /\ UNCHANGED done
SetLevel(x, v) == level' = [level EXCEPT ![x] = v] /\ UNCHANGED <<up, done>>

\* x logs something with level v at time t: out are the messages that appear, as
\* [v: level, own: is it from x, t: has it the time, text: is everything there]
SayBad(x, v, out) ==
  LET on == v >= Effective(x)
  IN If(on /\ Len(out) = 0, "message-lost") \cup
     If(~on /\ Len(out) > 0, "message-of-a-disabled-level") \cup
     If(Len(out) > 1, "message-repeated") \cup
     If(\E i \in DOMAIN out : out[i].v # v, "message-with-another-level") \cup
     If(\E i \in DOMAIN out : ~out[i].own, "message-of-somebody-else") \cup
     If(\E i \in DOMAIN out : ~out[i].t, "message-with-another-time") \cup
     If(\E i \in DOMAIN out : ~out[i].text, "message-without-its-content")

RanBad(s, d) == If(s \in DOMAIN done /\ done[s] # d, "results-depend-on-the-level")
Ran(s, d) == RanBad(s, d) = {} /\ done' = Put(done, s, d) /\ UNCHANGED <<up, level>>
=============================================================================
