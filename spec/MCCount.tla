------------------------------ MODULE MCCount -------------------------------
EXTENDS Count
CONSTANTS Agents, Nodes, MaxTimes
Init == \E E \in SUBSET {{u, v} : u, v \in Nodes} : (\A e \in E : Cardinality(e) = 2) /\ CInit(E)
Free == Nodes \ Rng(at)
Seen == DOMAIN at \cup others \cup DOMAIN cnt
Next == \/ \E a \in Agents \ Seen, n \in Free, k \in {"Counter", "Sum", ""} : Born(a, n, k)
        \/ \E a \in Agents \ Seen, k \in {"Ticker", ""} : Born(a, "", k)
        \/ \E a \in DOMAIN at \cup others : Die(a)
        \/ \E a \in (DOMAIN at \cup others) \cap DOMAIN cnt : cnt[a].times < MaxTimes /\ Act(a)
        \/ \E u, v \in Nodes : u # v /\ (Link(u, v) \/ Cut(u, v))
MCSpec == Init /\ [][Next]_vars
Bounds == \A a \in DOMAIN cnt :
            LET c == cnt[a] IN
            /\ c.kind = "Ticker" => c.neighbors = 0 /\ c.total = 0
            /\ c.kind = "Counter" => c.neighbors < Cardinality(Agents) /\ (c.times > 0 => c.total > c.neighbors)
            /\ c.kind = "Sum" => c.total >= c.times + c.neighbors
Grows == [][\A a \in DOMAIN cnt : cnt'[a].times >= cnt[a].times /\ (cnt'[a] # cnt[a] => cnt'[a].times = cnt[a].times + 1)]_vars
=============================================================================
