------------------------------- MODULE Store -------------------------------
(* The results of a history of runs, on disk (soil/exporters.py, soil/utils.py:
   try_backup, safe_open; soil/analysis.py).

   Rows are opaque (the labels and the values of a record, as text), and the
   content of a table is a bag of rows.                                        *)
EXTENDS Kit

Count(b, r) == IF r \in DOMAIN b THEN b[r] ELSE 0
BagAdd(a, b) == [r \in DOMAIN a \cup DOMAIN b |-> Count(a, r) + Count(b, r)]
BagLeq(a, b) == \A r \in DOMAIN a : a[r] <= Count(b, r)
BagEq(a, b) == BagLeq(a, b) /\ BagLeq(b, a)
\* The same, for contents: table -> bag
Bag(c, t) == IF t \in DOMAIN c THEN c[t] ELSE <<>>
Add(c, d) == [t \in DOMAIN c \cup DOMAIN d |-> BagAdd(Bag(c, t), Bag(d, t))]
Eq(c, d) == \A t \in DOMAIN c \cup DOMAIN d : BagEq(Bag(c, t), Bag(d, t))

VARIABLES
  dbs,      \* path of a database -> its content
  backs,    \* path of a database -> sequence with the contents of its backups
  csvs,     \* path of a CSV file -> [b: bag of rows, exact: nothing else is there]
  nets,     \* path of a GEXF or YAML file -> network or configuration
  keep,     \* path of a GEXF or YAML file -> the versions of it that have to be in the backups
  last,     \* what there is on disk, as a whole (opaque)
  quiet,    \* nothing has been written since then
  data      \* what was run -> its results (opaque)
vars == <<dbs, backs, csvs, nets, keep, last, quiet, data>>

SInit == dbs = <<>> /\ backs = <<>> /\ csvs = <<>> /\ nets = <<>> /\ keep = <<>> /\ last = "" /\ quiet = FALSE /\ data = <<>>

\* Results r: [dump, dry, over, back, db (path or ""), shown, rows, csv: path -> bag, nets: path -> network, what, data]
Writes(r) == r.dump /\ ~r.dry
Backs(p) == IF p \in DOMAIN backs THEN backs[p] ELSE <<>>
RunBad(r) ==
  If(r.dry /\ r.results # 0, "results-of-a-dry-run") \cup
  If(r.dry /\ r.made # 0, "models-created-in-a-dry-run") \cup
  If(~r.dry /\ ~r.dump /\ ~r.shown, "results-not-shown-instead-of-dumped") \cup
  If(~r.dry /\ r.results # r.expected, "results-missing") \cup
  If(~r.dry /\ r.what \in DOMAIN data /\ data[r.what] # r.data, "other-results-with-another-way-of-dumping")
Kept(p) == IF p \in DOMAIN keep THEN keep[p] ELSE {}
Run(r) ==
  /\ RunBad(r) = {}
  /\ data' = IF r.dry THEN data ELSE Put(data, r.what, r.data)
  /\ IF ~Writes(r) THEN UNCHANGED <<dbs, backs, csvs, nets, keep, last>> /\ quiet' = TRUE
     ELSE /\ quiet' = FALSE
          /\ UNCHANGED last
          /\ IF r.db = "" THEN UNCHANGED <<dbs, backs>>
             ELSE LET there == r.db \in DOMAIN dbs
                      clean == r.over \/ r.back \/ ~there IN
                  /\ dbs' = Put(dbs, r.db, IF clean THEN r.rows ELSE Add(dbs[r.db], r.rows))
                  /\ backs' = IF r.back /\ there THEN Put(backs, r.db, Append(Backs(r.db), dbs[r.db])) ELSE backs
          \* CSV files are appended to: what overwrite and backup mean for them is not specified
          /\ csvs' = [p \in DOMAIN csvs \cup DOMAIN r.csv |->
                        IF p \notin DOMAIN r.csv THEN csvs[p]
                        ELSE IF p \in DOMAIN csvs THEN
                           [b |-> IF r.over \/ r.back THEN r.csv[p] ELSE BagAdd(csvs[p].b, r.csv[p]), exact |-> csvs[p].exact /\ ~(r.over \/ r.back)]
                        ELSE [b |-> r.csv[p], exact |-> TRUE]]
          /\ nets' = [p \in DOMAIN nets \cup DOMAIN r.nets |-> IF p \in DOMAIN r.nets THEN r.nets[p] ELSE nets[p]]
          \* A file is written again with other content
          /\ keep' = [p \in DOMAIN keep \cup (IF r.back THEN DOMAIN r.nets ELSE {}) |->
                        Kept(p) \cup (IF r.back /\ p \in DOMAIN nets \cap DOMAIN r.nets THEN {nets[p]} ELSE {})]

\* Observations of the disk
DbBad(p, there, c) ==
  IF p \notin DOMAIN dbs THEN If(there, "database-from-nowhere")
  ELSE IF ~there THEN {"database-missing"}
  ELSE UNION {If(~BagLeq(Bag(dbs[p], t), Bag(c, t)), "results-lost-in-" \o t) \cup
              If(~BagLeq(Bag(c, t), Bag(dbs[p], t)), "other-results-in-" \o t) : t \in DOMAIN dbs[p] \cup DOMAIN c}
\* The backups, in any order
RECURSIVE SameBacks(_, _)
SameBacks(q, s) ==
  IF q = <<>> THEN s = <<>>
  ELSE \E i \in DOMAIN s : Eq(q[1], s[i]) /\ SameBacks(Tail(q), [j \in 1..(Len(s) - 1) |-> IF j < i THEN s[j] ELSE s[j + 1]])
BacksBad(p, cs) == If(Len(cs) < Len(Backs(p)), "backup-lost") \cup
                   If(Len(cs) > Len(Backs(p)), "unexpected-backup") \cup
                   If(Len(cs) = Len(Backs(p)) /\ ~SameBacks(cs, Backs(p)), "backup-modified")
\* What read_sql returns: the tables of soil, not those of the user
Own == {"env", "agents", "parameters", "configuration"}
ReadBad(p, c) == If(p \in DOMAIN dbs /\ ~Eq(c, [t \in DOMAIN dbs[p] \cap Own |-> dbs[p][t]]), "read_sql-returns-other-results")
CsvBad(p, there, b) ==
  IF p \notin DOMAIN csvs THEN If(there, "csv-file-from-nowhere")
  ELSE IF ~there THEN {"csv-file-missing"}
  ELSE If(~BagLeq(csvs[p].b, b), "results-lost-in-csv") \cup
       If(csvs[p].exact /\ ~BagLeq(b, csvs[p].b), "other-results-in-csv")
NetBad(p, there, g) == IF p \notin DOMAIN nets THEN {} ELSE IF ~there THEN {"network-or-configuration-file-missing"} ELSE If(g # nets[p], "another-network-or-configuration-in-a-file")
KeptBad(p, gs) == If(\E g \in Kept(p) : g \notin Rng(gs), "file-without-its-backup") \cup
                  If(p \notin DOMAIN keep /\ gs # <<>>, "unexpected-backup-of-a-file")
\* The columns of a table, which may be empty
ColsBad(want, got) == If(\E c \in Rng(want) : c \notin Rng(got), "column-missing")
\* The whole disk
DiskBad(h) == If(quiet /\ last # "" /\ h # last, "trace-left-by-a-run-that-does-not-dump")
Disk(h) == DiskBad(h) = {} /\ last' = h /\ UNCHANGED <<dbs, backs, csvs, nets, keep, quiet, data>>
=============================================================================
