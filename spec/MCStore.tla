------------------------------ MODULE MCStore ------------------------------
(* Every history of a few runs, with any flags. *)
EXTENDS Store
CONSTANTS Paths, MaxRuns
VARIABLES n, sent, gone, lost
MCInit == SInit /\ n = 0 /\ sent = <<>> /\ gone = FALSE /\ lost = FALSE
MCRun == /\ n < MaxRuns
         /\ \E dump, dry, over, back \in BOOLEAN, p \in Paths \cup {""} :
              LET row == [t |-> (n :> 1)]
                  r == [dump |-> dump, dry |-> dry, over |-> over, back |-> back, db |-> p, rows |-> row, csv |-> <<>>, nets |-> IF p = "" THEN <<>> ELSE (p :> n),
                        results |-> IF dry THEN 0 ELSE 1, expected |-> 1, shown |-> TRUE, made |-> IF dry THEN 0 ELSE 1, what |-> n, data |-> n] IN
              /\ Run(r)
              /\ sent' = IF Writes(r) /\ p # "" THEN Append(sent, [p |-> p, row |-> row, v |-> n]) ELSE sent
              \* Only overwriting without a backup loses results
              /\ gone' = (gone \/ (Writes(r) /\ p \in DOMAIN dbs /\ over /\ ~back))
              /\ lost' = (lost \/ (Writes(r) /\ p \in DOMAIN nets /\ ~back))
         /\ n' = n + 1
MCNext == MCRun
MCSpec == MCInit /\ [][MCNext]_<<vars, n, sent, gone, lost>>
Everywhere(p) == LET RECURSIVE Sum(_)
                     Sum(q) == IF q = <<>> THEN <<>> ELSE Add(q[1], Sum(Tail(q)))
                 IN Add(IF p \in DOMAIN dbs THEN dbs[p] ELSE <<>>, Sum(Backs(p)))
RECURSIVE Total(_, _)
Total(b, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN b[x] + Total(b, S \ {x})
Size(c) == LET b == Bag(c, "t") IN Total(b, DOMAIN b)
\* No result is ever lost, or stored twice
AllThere == ~gone => \A p \in Paths : Size(Everywhere(p)) = Cardinality({i \in DOMAIN sent : sent[i].p = p})
\* With backups, every version of a file is there
VersionsThere == ~lost => \A p \in DOMAIN nets : Kept(p) \cup {nets[p]} = {sent[i].v : i \in {j \in DOMAIN sent : sent[j].p = p}}
\* Backups never change
Untouched == [][\A p \in DOMAIN backs : p \in DOMAIN backs' /\ Len(backs[p]) <= Len(backs'[p]) /\ SubSeq(backs'[p], 1, Len(backs[p])) = backs[p]]_vars
\* Runs that do not dump change nothing
Silent == [][quiet' /\ ~quiet => dbs' = dbs /\ backs' = backs]_vars
=============================================================================
