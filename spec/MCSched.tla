------------------------------ MODULE MCSched ------------------------------
(* Exhaustive exploration of Sched with a few agents and a bounded clock.     *)
EXTENDS Sched

CONSTANTS Agents, Orders, Delays, MaxNow, MaxClk

MCInit == \E o \in Orders, d \in {1, 2} : SInit([dflt |-> d, order |-> o])

MCAdd == now < Inf /\ \E a \in Agents \ (alive \cup gone), w \in {None} \cup (now..MaxNow) : Add(a, w)
MCAddPast == \E a \in Agents \ (alive \cup gone), w \in 0..MaxNow : AddPast(a, w)
MCBegin == running /\ ~instep /\ alive # {} /\ StepBegin(now)
MCAct == \E a \in Agents : Act(a, now)
MCRet == \E a \in Agents, d \in Delays : cur = <<a>> /\ Ret(a, d)
MCKill == \E b \in alive : Kill(b)
MCEnd == \E t \in (now..(MaxNow + 3)) \cup {Inf}, r \in BOOLEAN : instep /\ StepEnd(t, r)

MCNext == MCAdd \/ MCAddPast \/ MCBegin \/ MCAct \/ MCRet \/ MCKill \/ MCEnd

Bound == (now <= MaxNow \/ now = Inf) /\ clk <= MaxClk

\* The order of the requests matters, their actual number does not
Rank == [a \in DOMAIN stamp |-> Cardinality({b \in DOMAIN stamp : stamp[b] < stamp[a]})]
View == <<cfg, now, running, alive, gone, wake, Rank, stale, cur, due, instep, clk>>

MCSpec == MCInit /\ [][MCNext]_vars
MCFair == MCSpec /\ WF_vars(MCBegin) /\ WF_vars(MCAct) /\ WF_vars(MCRet) /\ WF_vars(MCEnd)

\* C01, C02: nobody is ever left behind by the clock
NothingInThePast == \A a \in DOMAIN wake : wake[a] >= now
\* C01: every agent is waiting for one activation, is acting or sleeps for ever
Accounted == /\ DOMAIN wake \subseteq alive
             /\ DOMAIN stamp = DOMAIN wake
             /\ \A i \in DOMAIN cur : cur[i] \notin DOMAIN wake
\* C02: the clock only moves between activations, and never back
Monotone == [][now' >= now /\ (now' # now => instep /\ ~instep' /\ Ready = {})]_vars
\* C03: death is final
Final == alive \cap gone = {} /\ gone \cap DOMAIN wake = {} /\ due \cap gone = {}
FinalStep == [][gone \subseteq gone' /\ (\A a \in gone : cur' # cur => cur' # <<a>>)]_vars
\* C24: at the same time, the scheduled order is a strict order
Ordered == \A a, b \in DOMAIN stamp : a # b => stamp[a] # stamp[b]
\* Sanity of the model: a step that has begun can always end
CanProgress == instep => (cur # <<>> \/ due # {} \/ ENABLED MCEnd)
\* A pending activation happens, or its agent dies
\* (checked only with a clock that is large enough for every pending time)
WakeUp == \A a \in Agents : (a \in DOMAIN wake /\ instep /\ wake[a] = now) ~>
                              (a \notin DOMAIN wake \/ clk >= MaxClk)
=============================================================================
