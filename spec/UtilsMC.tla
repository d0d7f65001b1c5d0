-------------------------------- MODULE UtilsMC --------------------------------
(* Every list up to MaxLen, every set of failing positions, every short pipeline. *)
EXTENDS Utils, Json, CSV, IOUtils
CONSTANTS MaxLen, Depth
File == IOEnv.VK_OUT
VARIABLES v, d
vars == <<v, d>>
Words == {"a", "b"}
Lists(n) == UNION {[1..i -> Words] : i \in 0..n}
Long == <<"b", "c", "b", "d", "a", "e", "a", "b", "c", "b", "a", "d">>
Funs(n) == UNION {[1..i -> {"f", "g"}] : i \in 0..n}
Steps == {<<"none", "f">>, <<"none", "g">>, <<"all", "h">>}
Pool(sort) ==
  CASE sort = "x" -> {"b"} [] sort = "f" -> {"f"} [] sort = "p" -> {"isA", "notA", "all", "none"}
    [] sort = "k" -> {"isA", "notA", "all", "none"} \X {"f"} [] sort = "l" -> {<<>>, <<"c">>, <<"c", "d">>, Long}
    [] sort = "F" -> Funs(3) [] sort = "S" -> UNION {[1..i -> Steps] : i \in 0..3}
    [] sort = "w" -> {"string", "id", "first", "last"} [] sort = "c" -> Carriers [] sort = "n" -> {0, 2}
RECURSIVE ArgsOf(_)
ArgsOf(sig) == IF sig = "" THEN {<<>>} ELSE {<<x>> \o as : x \in Pool(SubSeq(sig, 1, 1)), as \in ArgsOf(SubSeq(sig, 2, Len(sig)))}
Starts == {List(xs) : xs \in Lists(MaxLen) \cup {Long}} \cup {<<"val", "a">>, <<"val", "b">>}
Emit(op, a, o) == CSVWrite("%1$s", <<ToJson([v |-> v, op |-> op, a |-> a, r |-> o.r, n |-> o.n, c |-> o.c])>>, File)
Init == v \in Starts /\ d = 0
Next == /\ d < Depth /\ d' = d + 1
        /\ \E op \in Ops(v) : \E a \in ArgsOf(op[2]) :
             LET o == Do(v, op[1], a) IN Emit(op[1], a, o) /\ v' = o.n
Spec == Init /\ [][Next]_vars

Typed == K(v) \in Kinds
KK == {"isA", "notA", "all", "none"} \X {"f"}
\* traversing is mapping and sequencing, and stops right behind the first failure
Traverses == K(v) = "list" => \A k \in KK :
  LET o == Do(v, "traverse", <<k>>)
      first == SelectInSeq(Xs(v), LAMBDA x : Holds(k[1], x)) IN
  /\ o.n = Do(Do(v, "items", <<"result", k>>).n, "sequence", <<>>).n
  /\ Len(o.c) = IF first = 0 THEN Len(Xs(v)) ELSE first
  /\ (first = 0) <=> o.n[3] = "ok"
  /\ first # 0 => o.n = <<"all", "result", "err", Ap("f", Xs(v)[first])>>
\* the validating traversal fails when the other does, with the same failure first
Validates == K(v) = "list" => \A k \in KK :
  LET a == Do(v, "traverse", <<k>>).n b == Do(v, "traverse_validated", <<k>>).n IN
  /\ a[3] = b[3] /\ (a[3] = "ok" => From(a, 4) = From(b, 4)) /\ (a[3] = "err" => a[4] = b[4])
  /\ b[3] = "err" => Len(b) - 3 = Len(SelectSeq(Xs(v), LAMBDA x : Holds(k[1], x)))
\* the filters keep what they should in order, a pipeline over a list is a map
Filters == K(v) = "list" => \A p \in {"isA", "notA", "all", "none"} :
  /\ Do(v, "filter_map", <<p, "f">>).n = Do(v, "filter_map_collect", <<<<CASE p = "isA" -> "notA" [] p = "notA" -> "isA" [] p = "all" -> "none" [] p = "none" -> "all", "f">>>>).n
  /\ Len(Xs(Do(v, "filter_map", <<p, "f">>).n)) = Len(SelectSeq(Xs(v), LAMBDA x : Holds(p, x)))
\* both pipelines run the same steps; a pipeline of total steps is their composition
Pipes == K(v) = "val" => \A ks \in Pool("S") :
  LET a == Do(v, "pipeline_option", <<ks>>) b == Do(v, "pipeline_result", <<ks>>) IN
  /\ a.c = b.c /\ a.n[3] = b.n[3] /\ (a.n[3] = "ok" => a.n[4] = b.n[4])
  /\ (\A i \in 1..Len(ks) : ks[i][1] = "none") => b.n[4] = Do(v, "compose_all", <<Map(LAMBDA k : k[2], ks)>>).n[2]
=============================================================================
