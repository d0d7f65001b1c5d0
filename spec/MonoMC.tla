-------------------------------- MODULE MonoMC --------------------------------
(* Values of one instance reached by combining, and every operation on them.  *)
EXTENDS Mono, Json, CSV, IOUtils
CONSTANTS Kind, Group, Depth
Out == IOEnv.VK_OUT
VARIABLES v, d
vars == <<v, d>>
S == Shape(Kind)
RECURSIVE Vals(_)
Vals(T) ==
  CASE T[1] = "text" -> {"", "a", "bc"}
    [] T[1] = "list" -> {<<>>, <<1>>, <<2, 1>>}
    [] T[1] = "set" -> {<<>>, <<1>>, <<1, 3>>, <<2, 3>>}
    [] T[1] = "map" -> LET p == Vals(T[2]) IN {<<>>} \cup {<<<<1, x>>>> : x \in p} \cup {<<<<1, x>>, <<2, y>>>> : x, y \in p} \cup {<<<<0, x>>, <<3, x>>>> : x \in p}
    [] T[1] = "opt" -> {<<>>} \cup {<<x>> : x \in Vals(T[2])}
    [] T[1] = "tuple" /\ Len(T) = 3 -> {<<x, y>> : x \in Vals(T[2]), y \in Vals(T[3])}
    [] T[1] = "tuple" /\ Len(T) = 4 -> {<<x, y, z>> : x \in {"", "a"}, y \in {<<>>, <<1>>}, z \in {<<>>, <<"b">>}}
    [] T[1] = "tuple" /\ Len(T) = 5 -> {<<x, y, z, w>> : x \in {"", "a"}, y \in {0, 5}, z \in {1, 2}, w \in {<<>>, <<3>>}}
    [] T[1] = "valid" -> {<<"ok", "a">>, <<"ok", "b">>, <<"err">>, <<"err", "x">>, <<"err", "y", "x">>}
    [] T[1] = "sum" -> {0, 1, 5, -3}
    [] T[1] = "product" -> {0, 1, 2, -2}
    [] T[1] \in {"min", "max"} -> {0, 2, 7, -4}
    [] T[1] \in {"minc", "maxc"} -> {2, 3, 5, -4, -3}
    [] T[1] \in {"first", "last"} -> {<<>>, <<4>>, <<9>>}
    [] T[1] = "pred" -> {<<0, 0, 0, 0>>, <<1, 0, 0, 1>>, <<0, 1, 1, 0>>, <<1, 1, 0, 0>>}
Base == Vals(S)
Few == {CHOOSE x \in Base : TRUE} \cup {CHOOSE x \in Base : x # CHOOSE y \in Base : TRUE}
\* enough values to tell orders apart
Lists == {<<>>} \cup {<<x>> : x \in Base} \cup {<<x, y>> : x \in Few, y \in Base} \cup {<<x, y, x, y>> : x, y \in Few} \cup {<<v, x, v>> : x \in Few}
         \cup {<<x, v, x, x, v, v, x, v, x>> : x \in Few}
Ops == IF Group = "wrap" THEN OpsOf(Kind) \cap (WrapOps \cup {"combine", "empty", "concat", "fold"}) ELSE OpsOf(Kind) \ WrapOps
Pool(sort) ==
  CASE sort = "v" -> {v} [] sort = "w" -> Base [] sort = "ws" -> Lists [] sort = "n" -> 0..5 \cup {7} \cup (IF Kind = "product" THEN {} ELSE {12, 17, 22, 33, 62}) [] sort = "x" -> {3, -8} [] sort = "f" -> {"f", "g"}
RECURSIVE ArgsOf(_)
ArgsOf(sig) == IF sig = <<>> THEN {<<>>} ELSE {Append(as, x) : as \in ArgsOf(Front(sig)), x \in Pool(Last(sig))}
Emit(op, a) == CSVWrite("%1$s", <<ToJson([m |-> Kind, op |-> op, a |-> a, r |-> Do(Kind, op, a)])>>, Out)
Init == v \in Base /\ d = 0
Next == /\ d < Depth
        /\ \E op \in Ops : \E a \in ArgsOf(MSig(op)) :
             /\ Emit(op, a)
             /\ v' = (IF op = "combine" THEN Do(Kind, op, a)[2] ELSE v) /\ d' = d + 1
Spec == Init /\ [][Next]_vars

Associative == \A x, y \in Base : Comb(S, Comb(S, v, x), y) = Comb(S, v, Comb(S, x, y))
Neutral == Kind \in Monoids /\ IdentityFor(S, v) => Comb(S, v, Empty(S)) = v /\ Comb(S, Empty(S), v) = v
\* splitting a fold anywhere gives the same
Folds == \A xs \in Lists : \A i \in 0..Len(xs) :
  FoldAll(S, v, xs) = IF i = Len(xs) THEN FoldAll(S, v, xs)
                      ELSE Comb(S, FoldAll(S, v, SubSeq(xs, 1, i)), FoldAll(S, xs[i + 1], SubSeq(xs, i + 2, Len(xs))))
Powers == \A m, n \in 1..3 : Times(S, v, m + n) = Comb(S, Times(S, v, m), Times(S, v, n))
=============================================================================
