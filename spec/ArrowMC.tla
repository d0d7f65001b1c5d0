------------------------------- MODULE ArrowMC -------------------------------
(* Every morphism expression up to a size on every datum it fits and then on    *)
(* another of that shape: run by the machine, compared with what it denotes,    *)
(* and written out for the real code, which makes the morphism only once.       *)
EXTENDS Arrow, Json, CSV, IOUtils
CONSTANTS MaxSize, Runs
File == IOEnv.VK_OUT
VARIABLES prog, start, m, runs
vars == <<prog, start, m, runs>>
X == S("x")
Y == S("y")
Data == {X, P(X, Y), P(P(X, Y), X)}
ASet == {<<"id">>, <<"fn", "f">>, <<"fn", "g">>, <<"const", "k">>, <<"bin", "h">>, <<"flip", "h">>, <<"swap">>}
Preds == {"isx", "pair"}
RECURSIVE Progs(_)
Pairs(k) == UNION {Progs(i) \X Progs(k - i) : i \in 1..(k - 1)}
Roots == {"leaf", "first", "second", "both", "when", "seq", "par", "split", "thenif", "many1", "many2", "many3", "chain"}
\* the expressions of size k with root r
Rooted(r, k) ==
  CASE r = "leaf" -> IF k = 1 THEN ASet \cup {<<"many", <<>>>>} ELSE {}
    [] r \in {"first", "second", "both"} -> {<<r, e>> : e \in Progs(k - 1)}
    [] r = "when" -> {<<r, p, e>> : p \in Preds, e \in Progs(k - 1)}
    [] r \in {"seq", "par", "split"} -> {<<r, q[1], q[2]>> : q \in Pairs(k - 1)}
    [] r = "thenif" -> {<<r, p, q[1], q[2]>> : p \in Preds, q \in Pairs(k - 1)}
    [] r = "many1" -> {<<"many", <<e>>>> : e \in Progs(k - 1)}
    [] r = "many2" -> {<<"many", q>> : q \in Pairs(k - 1)}
    [] r = "many3" -> {<<"many", <<q[1], q[2], e>>>> : q \in Pairs(k - 2), e \in ASet}
    \* long chains, of every length up to 45
    [] r = "chain" -> IF k # 2 THEN {} ELSE {<<"many", [i \in 1..n |-> <<"fn", IF i % 3 = 0 THEN "f" ELSE IF i % 3 = 1 THEN "g" ELSE "h">>]>> : n \in 1..45}
Progs(k) == IF k < 1 THEN {} ELSE UNION {Rooted(r, k) : r \in Roots \ {"chain"}}
Open == [todo |-> <<<<"open">>>>, stk |-> <<>>, log |-> <<>>]
MCInit == \E r \in Roots, k \in 1..MaxSize, d \in Data : prog = <<r, k>> /\ start = d /\ m = Open /\ runs = <<>>
Pick == /\ m = Open /\ UNCHANGED <<start, runs>>
        /\ prog' \in {e \in Rooted(prog[1], prog[2]) : Shape(e, ShapeOf(start)) # Bad}
        /\ m' = Load(prog', start)
Case == [p |-> prog, runs |-> runs']
Run == /\ m # Open /\ ~Done(m) /\ m' = StepM(m) /\ UNCHANGED <<prog, start>>
       /\ runs' = IF Done(m') THEN Append(runs, [s |-> start, d |-> Value(m'), c |-> m'.log]) ELSE runs
       /\ (Done(m') /\ Len(runs') = Runs) => CSVWrite("%1$s", <<ToJson(Case)>>, File)
\* another datum of the same shape
RECURSIVE Other(_)
Other(d) == IF d[1] = "s" THEN S(IF d = X THEN "y" ELSE "x") ELSE P(Other(d[2]), Other(d[3]))
Again == /\ m # Open /\ Done(m) /\ Len(runs) < Runs /\ UNCHANGED <<prog, runs>>
         /\ start' = Other(start) /\ m' = Load(prog, start')
MCNext == Pick \/ Run \/ Again
MCSpec == MCInit /\ [][MCNext]_vars

AgreesDen == Done(m) => /\ Len(m.stk) = 1
                        /\ [d |-> Value(m), c |-> m.log] = Den(prog, start)
                        /\ ShapeOf(Value(m)) = Shape(prog, ShapeOf(start))
AtStart == m # Open /\ m = Load(prog, start)
Same(e, g, d) == Den(e, d) = Den(g, d)
Then(e, g) == <<"seq", e, g>>
F == <<"fn", "u">>
G == <<"fn", "v">>
\* the category laws with prog in every place
Category == AtStart =>
  /\ Same(Then(prog, <<"id">>), prog, start)
  /\ Same(Then(<<"id">>, prog), prog, start)
  /\ Same(Then(Then(prog, F), G), Then(prog, Then(F, G)), start)
  /\ Same(<<"many", <<prog, F, G>>>>, Then(prog, Then(F, G)), start)
\* products act componentwise
Arrows == AtStart =>
  /\ Same(<<"first", prog>>, <<"par", prog, <<"id">>>>, P(start, Y))
  /\ Same(<<"second", prog>>, <<"par", <<"id">>, prog>>, P(Y, start))
  /\ Same(<<"second", prog>>, Then(<<"swap">>, Then(<<"first", prog>>, <<"swap">>)), P(Y, start))
  /\ Same(<<"split", prog, F>>, Then(<<"split", <<"id">>, <<"id">>>>, <<"par", prog, F>>), start)
  /\ Same(<<"split", prog, prog>>, Then(<<"split", <<"id">>, <<"id">>>>, <<"both", prog>>), start)
  /\ Same(<<"first", Then(prog, F)>>, Then(<<"first", prog>>, <<"first", F>>), P(start, Y))
  /\ Same(<<"par", prog, F>>, Then(<<"first", prog>>, <<"second", F>>), P(start, Y))
  /\ Same(<<"flip", "h">>, Then(<<"swap">>, <<"bin", "h">>), P(start, Y))
  /\ Same(<<"thenif", "isx", prog, F>>, Then(prog, <<"when", "isx", F>>), start)
  /\ Same(<<"first", <<"id">>>>, <<"id">>, P(start, Y))
\* a conditional that fails is the identity, one that holds is its transform (after the predicate is asked)
Conditional == AtStart =>
  LET n == Den(<<"when", "no", prog>>, start) y == Den(<<"when", "yes", prog>>, start) IN
  n.d = start /\ Len(n.c) = 1 /\ y.d = Den(prog, start).d /\ Tail(y.c) = Den(prog, start).c
=============================================================================
