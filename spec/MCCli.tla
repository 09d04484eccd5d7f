------------------------------- MODULE MCCli -------------------------------
(* Every combination of a few options, with every small file. *)
EXTENDS Cli
CONSTANTS Seeds, Limits, Big
VARIABLE phase
mvars == <<vars, phase>>
Maybe(S) == {<<>>} \cup {<<x>> : x \in S}
Sim(name, sd, n, t, s, wide) == [c |-> name, name |-> name, seed |-> sd, n |-> n, t |-> t, s |-> s, p |-> {<<"a", 0>>}, m |-> IF wide THEN << <<"b", {1, 2}>> >> ELSE <<>>, life |-> 3]
MCSims == {<<Sim("x", sd, n, t, s, w)>> : sd \in Seeds, n \in 1..2, t \in {None} \cup Limits, s \in {None, 2}, w \in BOOLEAN}
   \cup (IF Big THEN {<<Sim("x", sd, 1, t, None, FALSE), Sim("y", "u", 1, None, 2, w)>> : sd \in Seeds, t \in {None} \cup Limits, w \in BOOLEAN} ELSE {})
MCOpts == [seed : Maybe(Seeds), n : Maybe({0, 1}), t : Maybe(Limits), s : Maybe({0, 1}), set : {{}, {<<"a", 1>>}}, dry : BOOLEAN, nodump : BOOLEAN, convert : BOOLEAN,
           missing : {FALSE}, out : {"o"}, kinds : {{"sqlite"}}]
MCInit == CInit /\ phase = "idle"
MCNext ==
  \/ phase = "idle" /\ phase' = "run" /\ \E ss \in MCSims, o \in MCOpts , io \in BOOLEAN : Invoke(ss, o, io)
  \/ phase = "run" /\ UNCHANGED phase /\ \E w \in want : ModelBad(w.c, w.p, w.i, w.k, "d") = {} /\ Model(w.c, w.p, w.i, w.k, "d")
  \/ phase = "run" /\ phase' = "done" /\ ExitBad(Files, Docs) = {} /\ Exit
MCSpec == MCInit /\ [][MCNext]_mvars

\* Options that are not given change nothing
Untouched == \A i \in DOMAIN sims :
  LET s == sims[i] e == Effective(s, opt) IN
  /\ opt.seed = <<>> => e.seed = s.seed
  /\ opt.n = <<>> => e.n = s.n
  /\ (opt.t = <<>> /\ opt.s = <<>>) => Steps(e) = Steps(s)
  /\ opt.set = {} => Combinations(e.p, e.m) = Combinations(s.p, s.m)
\* ... and those given are obeyed
Obeyed == phase = "run" => \A w \in want :
  /\ opt.seed # <<>> => w.seed = opt.seed[1]
  /\ opt.n # <<>> => w.i < opt.n[1]
  /\ opt.t # <<>> => 4 * (w.k - 1) < opt.t[1]
  /\ opt.s # <<>> => w.k <= opt.s[1]
  /\ opt.set \subseteq w.p
Silent == (opt.dry \/ opt.convert) => want = {} /\ Files = {}
NoTrace == opt.nodump => Files = {}
=============================================================================
