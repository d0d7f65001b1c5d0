--------------------------------- MODULE Mono ---------------------------------
(* Semigroups and monoids: what combining means for every instance, and what  *)
(* everything derived from combining must give.  Values are plain data:       *)
(* text a string, list/set/map tuples (sets and maps sorted), an optional     *)
(* value <<>> or <<x>>, a predicate its truth table, numbers numbers.         *)
EXTENDS Integers, Sequences, SequencesExt, TLC

Shape(kind) ==
  CASE kind \in {"str", "idstr", "own"} -> <<"text">>
    [] kind \in {"vec", "pvec", "choice", "idvec"} -> <<"list">>
    [] kind \in {"hset", "bset"} -> <<"set">>
    [] kind \in {"hmap", "bmap"} -> <<"map", <<"text">>>>
    [] kind \in {"hmapsum", "bmapsum"} -> <<"map", <<"sum">>>>
    [] kind = "opt" -> <<"opt", <<"text">>>>
    [] kind = "optopt" -> <<"opt", <<"opt", <<"text">>>>>>
    [] kind = "pair" -> <<"tuple", <<"text">>, <<"sum">>>>
    [] kind = "triple" -> <<"tuple", <<"text">>, <<"list">>, <<"opt", <<"text">>>>>>
    [] kind = "quad" -> <<"tuple", <<"text">>, <<"sum">>, <<"max">>, <<"last">>>>
    [] kind = "writer" -> <<"tuple", <<"list">>, <<"text">>>>
    [] kind = "validated" -> <<"valid">>
    [] kind \in {"sum", "product", "min", "max", "first", "last"} -> <<kind>>
    \* payloads equal to others of their class; l or r says which of two equal ones combining keeps
    [] kind = "maxcl" -> <<"maxc", "l">> [] kind = "maxcr" -> <<"maxc", "r">>
    [] kind = "mincl" -> <<"minc", "l">> [] kind = "mincr" -> <<"minc", "r">>
    [] kind = "idsum" -> <<"sum">>
    [] kind = "pred" -> <<"pred">>
Semigroups == {"own", "str", "idstr", "vec", "pvec", "choice", "idvec", "hset", "bset", "hmap", "bmap", "hmapsum", "bmapsum", "opt", "optopt",
               "pair", "triple", "quad", "writer", "validated", "sum", "product", "min", "max", "first", "last", "idsum", "pred", "maxcl", "maxcr", "mincl", "mincr"}
ClassOf(x) == x \div 2
Monoids == {"own", "str", "idstr", "vec", "pvec", "choice", "idvec", "writer", "validated", "sum", "product", "min", "max", "first", "last", "idsum", "pred"}
Wrappers == {"sum", "product", "min", "max", "first", "last"}

RECURSIVE Union2(_, _)
Union2(xs, ys) ==
  IF xs = <<>> THEN ys ELSE IF ys = <<>> THEN xs
  ELSE IF Head(xs) = Head(ys) THEN <<Head(xs)>> \o Union2(Tail(xs), Tail(ys))
  ELSE IF Head(xs) < Head(ys) THEN <<Head(xs)>> \o Union2(Tail(xs), ys)
  ELSE <<Head(ys)>> \o Union2(xs, Tail(ys))
RECURSIVE Comb(_, _, _), Merge(_, _, _)
Comb(S, a, b) ==
  CASE S[1] \in {"text", "list"} -> a \o b
    [] S[1] = "set" -> Union2(a, b)
    [] S[1] = "map" -> Merge(S[2], a, b)
    [] S[1] = "opt" -> IF a = <<>> THEN b ELSE IF b = <<>> THEN a ELSE <<Comb(S[2], a[1], b[1])>>
    [] S[1] = "tuple" -> [i \in DOMAIN a |-> Comb(S[i + 1], a[i], b[i])]
    [] S[1] = "valid" -> IF a[1] = "ok" THEN a ELSE IF b[1] = "ok" THEN b ELSE a \o Tail(b)
    [] S[1] = "sum" -> a + b
    [] S[1] = "product" -> a * b
    [] S[1] = "min" -> IF a <= b THEN a ELSE b
    [] S[1] = "max" -> IF a >= b THEN a ELSE b
    [] S[1] = "maxc" -> IF ClassOf(a) > ClassOf(b) THEN a ELSE IF ClassOf(a) < ClassOf(b) THEN b ELSE IF S[2] = "l" THEN a ELSE b
    [] S[1] = "minc" -> IF ClassOf(a) < ClassOf(b) THEN a ELSE IF ClassOf(a) > ClassOf(b) THEN b ELSE IF S[2] = "l" THEN a ELSE b
    [] S[1] = "first" -> IF a = <<>> THEN b ELSE a
    [] S[1] = "last" -> IF b = <<>> THEN a ELSE b
    [] S[1] = "pred" -> [i \in DOMAIN a |-> IF a[i] = 1 \/ b[i] = 1 THEN 1 ELSE 0]
Merge(S, a, b) ==
  IF a = <<>> THEN b ELSE IF b = <<>> THEN a
  ELSE LET x == Head(a) y == Head(b) IN
       IF x[1] = y[1] THEN <<<<x[1], Comb(S, x[2], y[2])>>>> \o Merge(S, Tail(a), Tail(b))
       ELSE IF x[1] < y[1] THEN <<x>> \o Merge(S, Tail(a), b)
       ELSE <<y>> \o Merge(S, a, Tail(b))
RECURSIVE Empty(_)
Empty(S) ==
  CASE S[1] = "text" -> "" [] S[1] \in {"list", "set", "map", "opt", "first", "last"} -> <<>>
    [] S[1] = "tuple" -> [i \in 1..(Len(S) - 1) |-> Empty(S[i + 1])]
    [] S[1] = "valid" -> <<"err">> [] S[1] = "sum" -> 0 [] S[1] = "product" -> 1
    \* documented: the payload type's default, an identity only for payloads on the right side of it
    [] S[1] \in {"min", "max"} -> 0
    [] S[1] = "pred" -> <<0, 0, 0, 0>>
IdentityFor(S, a) == CASE S[1] = "min" -> a <= 0 [] S[1] = "max" -> a >= 0 [] OTHER -> TRUE

RECURSIVE FoldAll(_, _, _)
FoldAll(S, acc, xs) == IF xs = <<>> THEN acc ELSE FoldAll(S, Comb(S, acc, Head(xs)), Tail(xs))
Times(S, a, n) == FoldAll(S, a, [i \in 1..(n - 1) |-> a])

Val(x) == <<"val", x>>
Panic == <<"panic">>
Bool(b) == Val(IF b THEN "true" ELSE "false")
MapF(f, x) == IF f = "f" THEN 2 * x + 1 ELSE x - 7
Opt1(S) == S[1] \in {"first", "last"}
Name(S) == CASE S[1] = "sum" -> "Sum" [] S[1] = "product" -> "Product" [] S[1] = "min" -> "Min" [] S[1] = "max" -> "Max"
             [] S[1] = "first" -> "First" [] S[1] = "last" -> "Last"
Text(S, a) == IF Opt1(S) THEN (IF a = <<>> THEN "None" ELSE "Some(" \o ToString(a[1]) \o ")") ELSE ToString(a)
Less(S, a, b) == IF Opt1(S) THEN (IF a = <<>> THEN b # <<>> ELSE b # <<>> /\ a[1] < b[1]) ELSE a < b

\* sorts: v current value, w another, ws several, n count, x payload, f function
MSig(op) ==
  CASE op \in {"combine", "cmp"} -> <<"v", "w">>
    [] op = "assoc" -> <<"v", "w", "w">>
    [] op = "fold1" -> <<"v", "ws">>
    [] op \in {"fold", "fold_owned", "concat"} -> <<"ws">>
    [] op \in {"combine_n", "power"} -> <<"v", "n">>
    [] op = "empty" -> <<>>
    [] op \in {"is_empty", "unwrap", "display", "debug"} -> <<"v">>
    [] op = "unwrap_or" -> <<"v", "x">>
    [] op = "fmap" -> <<"v", "f">>
    [] op = "from" -> <<"x">>
SemigroupOps == {"combine", "assoc", "fold1", "fold", "fold_owned", "combine_n"}
MonoidOps == {"concat", "power", "empty", "is_empty"}
WrapOps == {"cmp", "unwrap", "display", "debug", "unwrap_or", "fmap", "from"}
OpsOf(kind) == SemigroupOps
  \cup (IF kind \in Monoids THEN MonoidOps \ (IF kind = "pred" THEN {"is_empty"} ELSE {}) ELSE {})
  \cup (IF kind \in Wrappers THEN WrapOps ELSE {})

Do(kind, op, a) ==
  LET S == Shape(kind) IN
  CASE op = "combine" -> Val(Comb(S, a[1], a[2]))
    [] op = "assoc" -> Val(Comb(S, Comb(S, a[1], a[2]), a[3]))
    [] op = "fold1" -> Val(FoldAll(S, a[1], a[2]))
    [] op = "fold" -> IF a[1] = <<>> THEN <<"none">> ELSE <<"some", FoldAll(S, Head(a[1]), Tail(a[1]))>>
    [] op = "fold_owned" -> IF a[1] = <<>> THEN Panic ELSE Val(FoldAll(S, Head(a[1]), Tail(a[1])))
    [] op = "concat" -> Val(IF a[1] = <<>> THEN Empty(S) ELSE FoldAll(S, Head(a[1]), Tail(a[1])))
    [] op = "combine_n" -> Val(IF a[2] = 0 THEN a[1] ELSE Times(S, a[1], a[2]))
    [] op = "power" -> Val(IF a[2] = 0 THEN Empty(S) ELSE Times(S, a[1], a[2]))
    [] op = "empty" -> Val(Empty(S))
    [] op = "is_empty" -> Bool(a[1] = Empty(S))
    [] op = "cmp" -> Val(IF a[1] = a[2] THEN "eq" ELSE IF Less(S, a[1], a[2]) THEN "lt" ELSE "gt")
    [] op = "unwrap" -> IF Opt1(S) THEN (IF a[1] = <<>> THEN Panic ELSE Val(a[1][1])) ELSE Val(a[1])
    [] op = "unwrap_or" -> Val(IF Opt1(S) THEN (IF a[1] = <<>> THEN a[2] ELSE a[1][1]) ELSE a[1])
    [] op \in {"display", "debug"} -> Val(Name(S) \o "(" \o Text(S, a[1]) \o ")")
    [] op = "fmap" -> Val(IF Opt1(S) THEN [i \in DOMAIN a[1] |-> MapF(a[2], a[1][i])] ELSE MapF(a[2], a[1]))
    [] op = "from" -> Val(IF Opt1(S) THEN <<a[1]>> ELSE a[1])
=============================================================================
