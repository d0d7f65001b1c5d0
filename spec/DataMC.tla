------------------------------- MODULE DataMC -------------------------------
(* Containers as a transition system: a value, and every operation of a group *)
(* that can be applied to it; each transition is written out for the real     *)
(* code, and the laws hold of every value reached.                            *)
EXTENDS Data, Json, CSV, IOUtils
CONSTANTS Kind, Group, Depth
Out == IOEnv.VK_OUT
VARIABLES v, d
vars == <<v, d>>

K == Kind
Vals ==
  CASE K \in NoPayload -> {Ok("a"), Ok("b"), Err(<<>>)}
    [] K \in {"result", "either", "ownres"} -> {Ok("a"), Ok("b"), Err(<<"x">>), Err(<<"y">>)}
    [] K = "validated" -> {Ok("a"), Ok("b"), Err(<<"x">>), Err(<<"y", "z">>), Err(<<"z", "z", "x">>)}
    [] K \in {"id", "box", "show"} -> {Ok("a"), Ok("b")}
    [] IsList(K) -> {L(<<>>), L(<<"a">>), L(<<"b">>), L(<<"b", "a">>), L(<<"c", "a", "b">>)}
\* more than fits a small buffer
Many(xs, n) == [i \in 1..n |-> xs[((i - 1) % Len(xs)) + 1]]
BigVals == CASE K = "validated" -> {Err(Many(<<"x", "y", "z">>, n)) : n \in {8, 9}}
             [] IsList(K) -> {L(Many(<<"a", "b", "c", "d">>, n)) : n \in {8, 9, 10}}
             [] OTHER -> {}
FVals ==
  CASE K \in NoPayload -> {Ok("f"), Err(<<>>)}
    [] K \in {"result", "either", "ownres"} -> {Ok("f"), Err(<<"w">>)}
    [] K = "validated" -> {Ok("f"), Err(<<"w">>), Err(<<"w", "x">>)}
    [] K = "id" -> {Ok("f"), Ok("g")}
    [] IsList(K) -> {L(<<>>), L(<<"f">>), L(<<"g", "f">>)}
VVals ==
  CASE K \in NoPayload \cup {"result", "either", "validated", "id", "ownres"} ->
         {Ok(w) : w \in Vals} \cup {w \in Vals : ~IsOk(w)}
    [] IsList(K) -> {L(<<>>), L(<<L(<<>>)>>), L(<<L(<<"a">>)>>), L(<<L(<<"a", "b">>), L(<<"c">>)>>),
                     L(<<L(<<>>), L(<<"a">>)>>), L(<<L(<<"b">>), L(<<>>), L(<<"a", "c">>)>>)}
NVals ==
  IF IsList(K) THEN {L(<<>>), L(<<3>>), L(<<2, 5>>), L(<<5, 2>>), L(<<1, 1, 4>>), L(<<4, 2, 7>>), L(<<7, 7, 2, 3>>), L(<<4, 3, 9, 2, 2, 5, 8, 6, 1, 7>>)}
  ELSE {Ok(3), Ok(0)} \cup {w \in Vals : ~IsOk(w)}
Ops == CASE Group = "law" -> LawOps(K) [] Group = "alt" -> AltOps(K) [] Group = "fold" -> FoldOps(K) [] Group = "own" -> OwnOps(K)
         [] Group = "comonad" -> ComonadOps(K)
\* all argument tuples of a signature, the first container being the current value
Pool(sort, first) ==
  CASE sort = "v" -> {v} [] sort = "w" -> Vals [] sort = "F" -> FVals [] sort = "V" -> VVals [] sort = "n" -> NVals
    [] sort = "f" -> IF first THEN {"f"} ELSE {"g"}
    [] sort = "k" -> Klei(K) [] sort = "p" -> Preds [] sort = "x" -> {"a", "u"} [] sort = "b" -> {TRUE, FALSE}
RECURSIVE ArgsOf(_)
ArgsOf(sig) ==
  IF sig = <<>> THEN {<<>>}
  ELSE {Append(as, x) : as \in ArgsOf(Front(sig)), x \in Pool(Last(sig), "f" \notin ToSet(Front(sig)))}
\* which sides of a law may be compared: payloads are strings
Init == v \in Vals \cup BigVals /\ d = 0
Flat(r) == r[1] \in {"ok", "err", "list"}
Composite == {"many", "is_empty", "to_vec", "map_error_to"}
Step(op, a) ==
  LET r == Res(K, op, a)
      c == Called(K, op, a)
  IN /\ v' = IF Flat(r) /\ op \notin Composite /\ Len(r) <= 7 THEN r ELSE v
     /\ d' = d + 1
     /\ CSVWrite("%1$s", <<ToJson([m |-> K, op |-> op, a |-> a, r |-> r, c |-> c])>>, Out)
\* binary operations also with the current value second
Swapped(op, a) == IF Len(a) >= 2 /\ Sig(op)[1] = "v" /\ Sig(op)[2] = "w" THEN <<a[2], a[1]>> \o SubSeq(a, 3, Len(a)) ELSE a
Next == /\ d < Depth
        /\ \E op \in Ops : \E a \in ArgsOf(Sig(op)) : Step(op, a) \/ (Swapped(op, a) # a /\ Step(op, Swapped(op, a)))
Spec == Init /\ [][Next]_vars

TypeOK == v[1] \in (IF IsList(K) THEN {"list"} ELSE {"ok", "err"})
LawsHold == Laws(K, v, Vals)
=============================================================================
