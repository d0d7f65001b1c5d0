------------------------------- MODULE EffMC -------------------------------
(***************************************************************************)
(* All programs of a monad up to a size, each run by the machine of Eff    *)
(* several times from different states and environments: a program is a    *)
(* value, so no run may remember another.  Each history of runs is emitted *)
(* for replay on the real monad.  Invariants: the machine agrees with the  *)
(* independent meaning Den, keeps its stack discipline, and the monad laws *)
(* hold of it.                                                             *)
(***************************************************************************)
EXTENDS Eff, Json, CSV, IOUtils, TLC

CONSTANTS Kind,    \* which monad
          MaxSize  \* program nodes

Out == IOEnv.VK_OUT

\* the runs of one program: starting state and environment
Starts == <<[s |-> "s", r |-> "r"], [s |-> "t", r |-> "q"]>>

VARIABLES prog, m, n, runs
vars == <<prog, m, n, runs>>

St0 == Starts[IF Len(runs) < Len(Starts) THEN Len(runs) + 1 ELSE Len(Starts)]

Vars(v) == {<<"var", i>> : i \in 1..v}

Leaves(v) ==
  CASE Kind = "state"  -> {<<"pure", "a">>, <<"get">>, <<"put", "b">>, <<"modify", "m">>, <<"gets", "g">>, <<"eff", "1">>}
                          \cup Vars(v) \cup {<<"putv", i>> : i \in {k \in 1..v : k = v}}
    [] Kind = "statetO" -> {<<"pure", "a">>, <<"get">>, <<"swap", "b">>, <<"modify", "m">>, <<"eff", "1">>, <<"fail", "e">>, <<"setst", "t", "x">>}
                          \cup {<<"var", i>> : i \in {k \in 1..v : k = v}}
    [] Kind = "statetR" -> {<<"pure", "a">>, <<"get">>, <<"swap", "b">>, <<"modify", "m">>, <<"eff", "1">>, <<"fail", "e">>, <<"fail", "f">>, <<"setst", "t", "x">>}
                          \cup {<<"var", i>> : i \in {k \in 1..v : k = v}}
    [] Kind = "statetL" -> {<<"pure", "a">>, <<"get">>, <<"swap", "b">>, <<"modify", "m">>, <<"fail", "empty">>, <<"setst", "t", "x">>}
                          \cup {<<"var", i>> : i \in {k \in 1..v : k = v}}
    [] Kind = "statetI" -> {<<"pure", "a">>, <<"get">>, <<"swap", "b">>, <<"modify", "m">>, <<"eff", "1">>, <<"setst", "t", "x">>}
                          \cup {<<"var", i>> : i \in {k \in 1..v : k = v}}
    [] Kind = "reader" -> {<<"pure", "a">>, <<"ask">>, <<"asks", "g">>, <<"eff", "1">>} \cup Vars(v)
    [] Kind \in {"readertO", "readertR"} -> {<<"pure", "a">>, <<"ask">>, <<"asks", "g">>, <<"eff", "1">>, <<"fail", "e">>}
                          \cup (IF Kind = "readertR" THEN {<<"fail", "f">>} ELSE {})
                          \cup {<<"var", i>> : i \in {k \in 1..v : k = v}}
    [] Kind = "writer" -> {<<"pure", "a">>, <<"tell", "1">>, <<"tell", "2">>, <<"eff", "3">>} \cup Vars(v)
    [] Kind = "io"     -> {<<"pure", "a">>, <<"eff", "1">>, <<"tick", "2">>} \cup Vars(v)
    [] Kind = "iofail" -> {<<"pure", "a">>, <<"tick", "1">>, <<"boom", "x">>, <<"boom", "y">>}
                          \cup {<<"var", i>> : i \in {k \in 1..v : k = v}}

\* the same value used twice
Shared(P) == {<<"share", "g", p>> : p \in P}
             \* and a program that runs itself once more from inside
             \cup (IF Kind \in {"writer", "statetL"} THEN {} ELSE {<<"rec", "g", p>> : p \in P})
Unary(P) == Shared(P) \cup
  CASE Kind = "state"  -> {<<"fmap", "f", p>> : p \in P} \cup {<<"same", p>> : p \in P}
    [] Kind \in {"statetO", "statetL", "statetI"} -> {<<"fmap", "f", p>> : p \in P} \cup (IF Kind = "statetI" THEN {<<"same", p>> : p \in P} ELSE {})
    [] Kind \in {"statetR", "readertR"} -> {<<"fmap", "f", p>> : p \in P} \cup {<<"mapfail", "h", p>> : p \in P}
                                           \cup (IF Kind = "readertR" THEN {<<"local", "l", p>> : p \in P} ELSE {})
    [] Kind \in {"reader", "readertO"} -> {<<"fmap", "f", p>> : p \in P} \cup {<<"local", "l", p>> : p \in P} \cup {<<"local", "k", p>> : p \in P}
    [] Kind = "writer" -> {<<"fmap", "f", p>> : p \in P}
    [] Kind = "io"     -> {<<"fmap", "f", p>> : p \in P} \cup {<<"same", p>> : p \in P} \cup {<<"seq", <<p>>>> : p \in P}
    [] Kind = "iofail" -> {<<"fmap", "f", p>> : p \in P} \cup {<<"catchd", p, "d">> : p \in P} \cup {<<"try", p>> : p \in P}
                          \cup {<<"seqc", <<p>>>> : p \in P}

\* p without, q with one more variable
Binary2(P, Q) ==
  CASE Kind = "iofail" -> {<<"bind", p, q>> : p \in P, q \in Q} \cup {<<"catch", p, q>> : p \in P, q \in Q}
    [] OTHER           -> {<<"bind", p, q>> : p \in P, q \in Q}

Binary(P, Q, v) ==
  CASE Kind = "state"  -> {<<"ap", p, q>> : p \in P, q \in Q} \cup (IF v > 0 THEN {<<"ifv", v, "s", p, q>> : p \in P, q \in Q} ELSE {})
    [] Kind \in {"statetO", "statetR", "statetI"} -> {<<"par", "g", p, q>> : p \in P, q \in Q} \cup {<<"join", p, q>> : p \in P, q \in Q}
    [] Kind = "statetL" -> {<<"amb", p, q>> : p \in P, q \in Q}
    [] Kind = "reader" -> {<<"comb", "g", p, q>> : p \in P, q \in Q}
    [] Kind \in {"readertO", "readertR"} -> {<<"par", "g", p, q>> : p \in P, q \in Q}
    [] Kind = "writer" -> {<<"ap", p, q>> : p \in P, q \in Q} \cup {<<"comb", g, p, q>> : g \in {"g", "<", ">", "+"}, p \in P, q \in Q}
    [] Kind = "io"     -> {<<"ap", p, q>> : p \in P, q \in Q} \cup {<<"comb", "g", p, q>> : p \in P, q \in Q}
                          \cup {<<"seq", <<p, q>>>> : p \in P, q \in Q}
                          \cup {<<"when", "w", b, p, q>> : b \in {"t", "f"}, p \in P, q \in Q}
    [] Kind = "iofail" -> {<<"ap", p, q>> : p \in P, q \in Q} \cup {<<"comb", "g", p, q>> : p \in P, q \in Q}
                          \cup {<<"seq", <<p, q>>>> : p \in P, q \in Q} \cup {<<"seqc", <<p, q>>>> : p \in P, q \in Q}

RECURSIVE Progs(_, _)
Progs(k, v) ==
  IF k = 1 THEN Leaves(v)
  ELSE Unary(Progs(k - 1, v))
       \cup UNION {Binary2(Progs(i, v), Progs(k - 1 - i, v + 1)) : i \in 1..(k - 2)}
       \cup UNION {Binary(Progs(i, v), Progs(k - 1 - i, v), v) : i \in 1..(k - 2)}

MCInit == /\ \E k \in 1..MaxSize : prog \in Progs(k, 0)
          /\ runs = <<>>
          /\ m = Load(prog, Starts[1].s, Starts[1].r)
          /\ n = 0

RunOf(x) == [s |-> St0.s, r |-> St0.r, res |-> x.res, log |-> x.log]
Case == [m |-> Kind, p |-> prog, runs |-> runs']

MCStep == /\ ~Done(m)
          /\ m' = StepM(m)
          /\ n' = n + 1
          /\ prog' = prog
          /\ IF Done(m') THEN runs' = Append(runs, RunOf(m')) ELSE runs' = runs
          /\ Len(runs') = Len(Starts) /\ Done(m') => CSVWrite("%1$s", <<ToJson(Case)>>, Out)

Again == /\ Done(m) /\ Len(runs) < Len(Starts)
         /\ m' = Load(prog, St0.s, St0.r)
         /\ n' = 0
         /\ UNCHANGED <<prog, runs>>

MCNext == MCStep \/ Again

MCSpec == MCInit /\ [][MCNext]_vars

\* ---- invariants
Terminates == n <= IF Kind = "statetL" THEN 5000 ELSE 400

AmbFree == Kind # "statetL"
AgreesDen == (Done(m) /\ AmbFree) =>
   LET b == Starts[Len(runs)]
       d == Den(prog, <<>>, b.s, b.r) IN
   /\ m.log = d.l
   /\ m.res = IF d.ok THEN <<<<"ok", d.s, d.v>>>> ELSE <<<<"fail", d.v>>>>

\* the environment is back at the end; an unfinished outcome list only with choice points left
Restored == Done(m) => /\ m.r = Starts[Len(runs)].r /\ m.k = <<>> /\ m.cps = <<>>
OnlyOne == AmbFree => Len(m.res) <= 1

LogGrows == [][n' # 0 => (Len(m'.log) >= Len(m.log) /\ SubSeq(m'.log, 1, Len(m.log)) = m.log)]_vars

\* monad laws, on the machine, for the program at hand
Mean(p) == Meaning(p, "s", "r")
Laws == (n = 0 /\ runs = <<>>) =>
   /\ Mean(<<"bind", prog, <<"var", 1>>>>) = Mean(prog)
   /\ (prog[1] = "bind" /\ prog[2][1] = "pure") =>
        LET e == RunAll(Run(Load(prog, "s", "r"), prog[3], <<prog[2][2]>>)) IN Mean(prog) = [res |-> e.res, log |-> e.log]
   /\ Mean(<<"fmap", "f", prog>>) = Mean(<<"bind", prog, <<"fmap", "f", <<"var", 1>>>>>>)
   /\ Mean(<<"same", prog>>) = Mean(prog)
   /\ Mean(<<"share", "g", prog>>) = Mean(<<"comb", "g", prog, prog>>)
   /\ prog[1] = "bind" => Mean(<<"bind", <<"bind", prog[2], prog[3]>>, <<"fmap", "h", <<"var", 1>>>>>>)
                          = Mean(<<"bind", prog[2], <<"bind", prog[3], <<"fmap", "h", <<"var", 2>>>>>>>>)
=============================================================================
