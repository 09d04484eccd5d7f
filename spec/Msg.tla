-------------------------------- MODULE Msg --------------------------------
(* Messages between evented agents (soil/agents/evented.py, soil/events.py,
   EventedEnvironment.broadcast): inboxes, expiration, questions and waits.

   An inbox is a sequence of messages
     [n: number of the message, m: content, s: sender, exp: expiration (or Inf),
      at: when it was sent, q: the question it carries, or None].
   A wait is [k: "ask", "get" or "peek", q: question, t0: start, d: period,
   dl: deadline (or Inf)]: the agent checks at t0, t0 + d, t0 + 2d... before dl. *)
EXTENDS Kit

VARIABLES
  now,
  pop,      \* agent -> [g: its group, box: it has an inbox], for those in the schedule
  inbox,    \* agent -> sequence of messages
  cnt,      \* number of messages so far
  qs,       \* question -> [at: when it was processed (or None), v: answer (or None)]
  wt,       \* agent -> its wait
  batch,    \* agent -> [on, t, mark, got, lost] the messages it is processing
  seen      \* agent -> numbers of the messages it has got, in order
vars == <<now, pop, inbox, cnt, qs, wt, batch, seen>>

NoBatch == [on |-> FALSE, t |-> 0, mark |-> 0, got |-> <<>>, lost |-> {}]
MInit == /\ now = 0 /\ pop = <<>> /\ inbox = <<>> /\ cnt = 0 /\ qs = <<>> /\ wt = <<>>
         /\ batch = <<>> /\ seen = <<>>

ClockBad(t) == If(t < now, "clock-goes-back")

Join(a, g, box) ==
  /\ pop' = Put(pop, a, [g |-> g, box |-> box]) /\ inbox' = Put(inbox, a, <<>>)
  /\ batch' = Put(batch, a, NoBatch) /\ seen' = Put(seen, a, <<>>)
  /\ UNCHANGED <<now, cnt, qs, wt>>

Leave(a) == pop' = Drop(pop, {a}) /\ wt' = Drop(wt, {a}) /\ UNCHANGED <<now, inbox, cnt, qs, batch, seen>>

Tick(t) == /\ ClockBad(t) = {} /\ now' = t /\ UNCHANGED <<pop, inbox, cnt, qs, wt, batch, seen>>

\* A message for one agent
Send(to, m, s, exp, q) ==
  /\ cnt' = cnt + 1
  /\ inbox' = [inbox EXCEPT ![to] = Append(@, [n |-> cnt + 1, m |-> m, s |-> s, exp |-> exp, at |-> now, q |-> q])]

Tell(to, m, s) == Send(to, m, s, Inf, None) /\ UNCHANGED <<now, pop, qs, wt, batch, seen>>

\* Everybody in group g (or None) but the sender
Audience(s, g) == {a \in DOMAIN pop : a # s /\ pop[a].box /\ (g = None \/ pop[a].g = g)}
Broadcast(m, s, g, exp) ==
  /\ cnt' = cnt + 1
  /\ inbox' = [a \in DOMAIN inbox |->
        IF a \in Audience(s, g) THEN Append(inbox[a], [n |-> cnt + 1, m |-> m, s |-> s, exp |-> exp, at |-> now, q |-> None])
        ELSE inbox[a]]
  /\ UNCHANGED <<now, pop, qs, wt, batch, seen>>

Expired(x, t) == x.exp < t
\* (the sender of a question is not specified: Anyone)
Anyone == -2
SameSender(x, s) == x.s \in {Anyone, s}

\* --- processing -----------------------------------------------------------
\* a starts processing its messages
StartBad(a) == If(a \notin DOMAIN pop, "dead-agent-acts") \cup If(batch[a].on, "nested-processing")
Start(a) ==
  /\ StartBad(a) = {}
  /\ batch' = [batch EXCEPT ![a] = [on |-> TRUE, t |-> now, mark |-> cnt, got |-> <<>>, lost |-> {}]]
  /\ UNCHANGED <<now, pop, inbox, cnt, qs, wt, seen>>

\* Position of the first message of a that has not expired (0: none)
First(a) == LET S == {i \in DOMAIN inbox[a] : ~Expired(inbox[a][i], now)} IN IF S = {} THEN 0 ELSE SetMin(S)

\* on_receive gets m, sent by s; v is what it returns (None: nothing)
RecvBad(a, m, s, v, t) ==
  IF a \notin DOMAIN pop THEN {"dead-agent-acts"}
  ELSE LET i == First(a) IN
    If(t # now, "activation-at-another-time") \cup
    If(~batch[a].on /\ (a \notin DOMAIN wt \/ wt[a].k # "get"), "message-processed-by-itself") \cup
    IF i = 0 THEN
      If(\A j \in DOMAIN inbox[a] : inbox[a][j].m # m, "message-delivered-twice-or-to-somebody-else") \cup
      If(\E j \in DOMAIN inbox[a] : inbox[a][j].m = m, "expired-message-delivered")
    ELSE LET x == inbox[a][i] IN
      IF x.m = m THEN If(~SameSender(x, s), "wrong-sender")
      ELSE IF \E j \in 1..(i-1) : inbox[a][j].m = m THEN {"expired-message-delivered"}
      ELSE IF \E j \in DOMAIN inbox[a] : inbox[a][j].m = m THEN
             (IF Expired(inbox[a][CHOOSE j \in DOMAIN inbox[a] : inbox[a][j].m = m], now)
              THEN {"expired-message-delivered"} ELSE {"message-lost-or-out-of-order"})
      ELSE {"message-delivered-twice-or-to-somebody-else"}
Recv(a, m, s, v, t) ==
  /\ RecvBad(a, m, s, v, t) = {}
  /\ LET i == First(a)
         x == inbox[a][i]
         b == IF batch[a].on /\ batch[a].t = now THEN batch[a] ELSE [NoBatch EXCEPT !.on = TRUE, !.t = now, !.mark = cnt]
     IN /\ inbox' = [inbox EXCEPT ![a] = SubSeq(@, i + 1, Len(@))]
        /\ batch' = [batch EXCEPT ![a] = [b EXCEPT !.got = Append(@, [m |-> x.m, s |-> s, at |-> x.at, exp |-> x.exp]),
                                                   !.lost = @ \cup {inbox[a][j] : j \in 1..(i-1)}]]
        /\ qs' = IF x.q = None THEN qs ELSE [qs EXCEPT ![x.q] = [at |-> now, v |-> v]]
        /\ seen' = [seen EXCEPT ![a] = Append(@, x.n)]
  /\ UNCHANGED <<now, pop, cnt, wt>>

Left(a) == {i \in DOMAIN inbox[a] : ~Expired(inbox[a][i], now) /\ inbox[a][i].n <= batch[a].mark}
EndBad(a) == If(~batch[a].on, "nested-processing") \cup If(Left(a) # {}, "pending-message-not-processed")
End(a) == /\ EndBad(a) = {} /\ batch' = [batch EXCEPT ![a] = NoBatch]
          /\ inbox' = [inbox EXCEPT ![a] = SelectSeq(@, LAMBDA x : ~Expired(x, now))]
          /\ UNCHANGED <<now, pop, cnt, qs, wt, seen>>

\* on_receive fails: the message has been delivered (without an answer), and the rest of them are still pending
BreakBad(a) == If(~batch[a].on, "error-without-processing")
Break(a) == /\ BreakBad(a) = {} /\ batch' = [batch EXCEPT ![a] = NoBatch] /\ wt' = Drop(wt, {a})
            /\ UNCHANGED <<now, pop, inbox, cnt, qs, seen>>

\* --- questions and waits --------------------------------------------------
\* a asks b
Ask(a, b, q, m, s, d, dl) ==
  /\ Send(b, m, s, Inf, q)
  /\ qs' = Put(qs, q, [at |-> None, v |-> None])
  /\ wt' = Put(wt, a, [k |-> "ask", q |-> q, t0 |-> now, d |-> d, dl |-> dl])
  /\ UNCHANGED <<now, pop, batch, seen>>

Wait(a, k, d, dl) ==
  /\ wt' = Put(wt, a, [k |-> k, q |-> None, t0 |-> now, d |-> d, dl |-> dl])
  /\ batch' = [batch EXCEPT ![a] = NoBatch]
  /\ UNCHANGED <<now, pop, inbox, cnt, qs, seen>>

\* Checks of a wait up to time t, and before its deadline
Checks(w, t) == {c \in {w.t0 + k * w.d : k \in 0..((t - w.t0) \div w.d)} : c < w.dl}

OnCheck(w, t) == (t - w.t0) % w.d = 0

\* The wait of a for an answer ends with v
AnswerBad(a, v, t) ==
  IF a \notin DOMAIN wt \/ a \notin DOMAIN pop THEN {"resumed-without-waiting"}
  ELSE LET w == wt[a] q == qs[w.q] IN
    If(t # now, "activation-at-another-time") \cup
    If(~OnCheck(w, t), "resumed-between-checks") \cup
    If(t >= w.dl, "answer-after-the-deadline") \cup
    If(q.v = None \/ q.v # v, "not-the-answer-to-the-question") \cup
    If(q.at # None /\ q.at < t - w.d, "answer-found-late")
Answer(a, v, t) == AnswerBad(a, v, t) = {} /\ wt' = Drop(wt, {a}) /\ UNCHANGED <<now, pop, inbox, cnt, qs, batch, seen>>

\* The wait of a for messages ends with the messages ms (pairs of content and sender)
MessagesBad(a, ms, t) ==
  IF a \notin DOMAIN wt \/ a \notin DOMAIN pop THEN {"resumed-without-waiting"}
  ELSE LET w == wt[a]
           peek == w.k = "peek"
           b == batch[a]
           all == IF peek THEN inbox[a] ELSE b.got IN
    If(t # now, "activation-at-another-time") \cup
    If(~OnCheck(w, t), "resumed-between-checks") \cup
    If(t >= w.dl, "messages-after-the-deadline") \cup
    If(ms = <<>>, "resumed-without-messages") \cup
    If(Len(ms) # Len(all) \/ (\E i \in DOMAIN ms \cap DOMAIN all : ms[i][1] # all[i].m \/ ~SameSender(all[i], ms[i][2])), "not-the-pending-messages") \cup
    If(~peek /\ Left(a) # {}, "pending-message-not-processed") \cup
    If(\E i \in DOMAIN all : all[i].at < t - w.d /\ t - w.d >= w.t0 /\ all[i].exp >= t - w.d, "messages-found-late")
Messages(a, ms, t) ==
  /\ MessagesBad(a, ms, t) = {} /\ wt' = Drop(wt, {a})
  /\ IF wt[a].k = "peek" THEN UNCHANGED <<inbox, batch>>
     ELSE /\ batch' = [batch EXCEPT ![a] = NoBatch]
          /\ inbox' = [inbox EXCEPT ![a] = SelectSeq(@, LAMBDA x : ~Expired(x, now))]
  /\ UNCHANGED <<now, pop, cnt, qs, seen>>

TimeoutBad(a, t) ==
  IF a \notin DOMAIN wt \/ a \notin DOMAIN pop THEN {"resumed-without-waiting"}
  ELSE LET w == wt[a] IN
    If(t # now, "activation-at-another-time") \cup
    If(~OnCheck(w, t), "resumed-between-checks") \cup
    If(t < w.dl, "timed-out-before-the-deadline") \cup
    If(t >= w.t0 + w.d /\ t - w.d >= w.dl, "timed-out-late") \cup
    (IF w.k = "ask" THEN LET q == qs[w.q] IN
       If(q.v # None /\ (\E c \in Checks(w, t) : q.at < c), "answer-ignored")
     ELSE If(\E i \in DOMAIN inbox[a], c \in Checks(w, t) :
               LET x == inbox[a][i] IN x.at < c /\ ~Expired(x, c), "messages-ignored") \cup
          If(w.k = "get" /\ batch[a].on, "messages-ignored"))
Timeout(a, t) == TimeoutBad(a, t) = {} /\ wt' = Drop(wt, {a}) /\ UNCHANGED <<now, pop, inbox, cnt, qs, batch, seen>>

\* End of an instant: nobody has missed a check
\* (a wait that is over at a check before t must have been resumed)
MissedBad(t) ==
  If(\E a \in DOMAIN wt \cap DOMAIN pop : LET w == wt[a] IN
       \/ w.dl < Inf /\ (\E c \in {w.t0 + k * w.d : k \in 0..((t - w.t0) \div w.d)} : c >= w.dl /\ c < t)
       \/ w.k = "ask" /\ qs[w.q].v # None /\ (\E c \in Checks(w, t - 1) : c > qs[w.q].at)
       \/ w.k # "ask" /\ (\E i \in DOMAIN inbox[a], c \in Checks(w, t - 1) :
                             LET x == inbox[a][i] IN x.at < c /\ ~Expired(x, c)),
     "wait-not-resumed")
\* Nothing else is going to happen in the model
StopBad == If(DOMAIN wt \cap DOMAIN pop # {}, "wait-not-resumed")
-----------------------------------------------------------------------------
CONSTANTS Agents, Groups, MaxT, MaxMsgs, Exps, Deaths, Acts
MCInit == /\ now = 0 /\ cnt = 0 /\ qs = <<>> /\ wt = <<>>
          /\ pop \in [Agents -> [g : Groups, box : {TRUE}]]
          /\ inbox = [a \in Agents |-> <<>>] /\ batch = [a \in Agents |-> NoBatch] /\ seen = [a \in Agents |-> <<>>]
Free(a) == a \in DOMAIN pop /\ a \notin DOMAIN wt /\ ~batch[a].on
MCTick == /\ now < MaxT /\ (\A a \in Agents : ~batch[a].on) /\ MissedBad(now + 1) = {} /\ Tick(now + 1)
MCTell == cnt < MaxMsgs /\ \E a, b \in DOMAIN pop : a # b /\ Tell(b, cnt + 1, a)
MCBcast == cnt < MaxMsgs /\ \E a \in DOMAIN pop, g \in Groups \cup {None}, e \in Exps : Broadcast(cnt + 1, a, g, IF e = Inf THEN Inf ELSE now + e)
MCAsk == cnt < MaxMsgs /\ \E a, b \in DOMAIN pop, dl \in {now + 1, now + 2, Inf} : a # b /\ Free(a) /\ Ask(a, b, cnt + 1, cnt + 1, None, 1, dl)
MCWait == \E a \in DOMAIN pop, d \in 1..2, dl \in {now + 1, now + 2, now + 3} : Free(a) /\ Wait(a, "get", d, dl)
MCStart == \E a \in DOMAIN pop : Free(a) /\ Start(a)
\* A waiting agent may only process its messages in a check
MayRecv(a) == batch[a].on \/ (a \in DOMAIN wt /\ wt[a].k = "get" /\ OnCheck(wt[a], now) /\ now < wt[a].dl)
MCRecv == \E a \in DOMAIN pop : First(a) # 0 /\ MayRecv(a) /\ \E v \in {None, 7} : Recv(a, inbox[a][First(a)].m, inbox[a][First(a)].s, v, now)
MCBreak == \E a \in DOMAIN pop : batch[a].on /\ batch[a].got # <<>> /\ Break(a)
MCEnd == \E a \in DOMAIN pop : a \notin DOMAIN wt /\ End(a)
MCAnswer == \E a \in DOMAIN wt \cap DOMAIN pop : wt[a].k = "ask" /\ Answer(a, qs[wt[a].q].v, now)
MCMessages == \E a \in DOMAIN wt \cap DOMAIN pop : wt[a].k = "get" /\
                 Messages(a, [i \in DOMAIN batch[a].got |-> <<batch[a].got[i].m, batch[a].got[i].s>>], now)
MCTimeout == \E a \in DOMAIN wt \cap DOMAIN pop : Timeout(a, now)
MCLeave == \E a \in DOMAIN pop : ~batch[a].on /\ Cardinality(Agents \ DOMAIN pop) < Deaths /\ Leave(a)
MCNext == MCTick \/ ("tell" \in Acts /\ MCTell) \/ ("bcast" \in Acts /\ MCBcast) \/ ("ask" \in Acts /\ MCAsk) \/ ("wait" \in Acts /\ MCWait) \/ MCStart \/ MCRecv \/ ("break" \in Acts /\ MCBreak) \/ MCEnd \/ MCAnswer \/ MCMessages \/ MCTimeout \/ MCLeave
MCSpec == MCInit /\ [][MCNext]_vars

\* C08: in order, and at most once
InOrder == \A a \in DOMAIN seen : \A i, j \in DOMAIN seen[a] : i < j => seen[a][i] < seen[a][j]
OneInbox == \A a \in DOMAIN inbox : \A i, j \in DOMAIN inbox[a] : i < j => inbox[a][i].n < inbox[a][j].n
\* What is pending comes after what has been delivered
Consistent == \A a \in DOMAIN inbox : \A i \in DOMAIN inbox[a] : inbox[a][i].n \notin Rng(seen[a])
\* C08: a message leaves an inbox only by being delivered, or expired
NotLost == [][\A a \in DOMAIN inbox : \A i \in DOMAIN inbox[a] :
                \/ inbox[a][i] \in Rng(inbox'[a]) \/ inbox[a][i].n \in Rng(seen'[a]) \/ Expired(inbox[a][i], now)]_vars
NoExpired == [][\A a \in DOMAIN seen : Len(seen'[a]) > Len(seen[a]) =>
                  \E i \in DOMAIN inbox[a] : inbox[a][i].n = seen'[a][Len(seen'[a])] /\ ~Expired(inbox[a][i], now)]_vars
\* C09: an answer belongs to its question; no wait survives its deadline by more than a period
WaitsEnd == \A a \in DOMAIN wt \cap DOMAIN pop : wt[a].dl < Inf => now <= wt[a].dl + wt[a].d
\* and an agent can always go on: either time passes or somebody has to be resumed
NotStuck == now < MaxT => ENABLED MCNext
=============================================================================
