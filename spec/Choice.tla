-------------------------------- MODULE Choice --------------------------------
(* A choice is a sequence: the primary value first, then the alternatives.    *)
(* Each operation gives a result and the choice it leaves behind.             *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

L(xs) == <<"list">> \o xs
Val(x) == <<"val", x>>
Panic == <<"panic">>
Refused == <<"refused">>
Prim(v) == IF v = <<>> THEN <<>> ELSE <<Head(v)>>
Alts(v) == IF v = <<>> THEN <<>> ELSE Tail(v)

F(f, x) == CASE f = "f" -> x + 100 [] f = "g" -> 3 * x + 1 [] f = "neg" -> 0 - x
Holds(p, x) == CASE p = "even" -> x % 2 = 0 [] p = "small" -> x < 2 [] p = "all" -> TRUE [] p = "none" -> FALSE
Preds == {"even", "small", "all", "none"}
Key(k, x) == CASE k = "id" -> x [] k = "mod" -> x % 2 [] k = "one" -> 1 [] k = "half" -> x \div 2
Keys == {"id", "mod", "one", "half"}
\* not even equal to itself
Strange(x) == x % 5 = 0
\* what an element is a list of
Part(k, x) == CASE k = "two" -> <<x, x + 50>>
                [] k = "down" -> <<x + 9, x + 3, x>>
                [] k = "odd" -> IF x % 2 = 0 THEN <<>> ELSE <<x>>
                [] k = "last" -> IF x < 3 THEN <<x>> ELSE <<>>
                [] k = "nil" -> <<>>
Parts == {"two", "down", "odd", "last", "nil"}
\* a step that may refuse
Refuses(q, x) == CASE q = "never" -> FALSE [] q = "odd" -> x % 2 = 1 [] q = "two" -> x = 2 [] q = "always" -> TRUE
Steps == {"never", "odd", "two", "always"}

RECURSIVE Flat(_, _)
Flat(k, xs) == IF xs = <<>> THEN <<>> ELSE Part(k, Head(xs)) \o Flat(k, Tail(xs))
RECURSIVE DedupBy(_, _, _)
DedupBy(k, xs, seen) ==
  IF xs = <<>> THEN <<>>
  ELSE IF Key(k, Head(xs)) \in seen THEN DedupBy(k, Tail(xs), seen)
  ELSE <<Head(xs)>> \o DedupBy(k, Tail(xs), seen \cup {Key(k, Head(xs))})
RECURSIVE Insert(_, _)
Insert(x, xs) == IF xs = <<>> THEN <<x>> ELSE IF x <= Head(xs) THEN <<x>> \o xs ELSE <<Head(xs)>> \o Insert(x, Tail(xs))
RECURSIVE Sorted(_)
Sorted(xs) == IF xs = <<>> THEN <<>> ELSE Insert(Head(xs), Sorted(Tail(xs)))
RECURSIVE Show(_, _)
Show(xs, sep) == IF xs = <<>> THEN "" ELSE ToString(Head(xs)) \o (IF Len(xs) = 1 THEN "" ELSE sep) \o Show(Tail(xs), sep)
RECURSIVE FoldL(_, _)
FoldL(acc, xs) == IF xs = <<>> THEN acc ELSE FoldL("(" \o acc \o "<" \o ToString(Head(xs)) \o ")", Tail(xs))
RECURSIVE Concat(_)
Concat(xss) == IF xss = <<>> THEN <<>> ELSE Head(xss) \o Concat(Tail(xss))
RECURSIVE Cmp(_, _)
Cmp(xs, ys) ==
  IF xs = ys THEN "eq" ELSE IF xs = <<>> THEN "lt" ELSE IF ys = <<>> THEN "gt"
  ELSE IF Head(xs) < Head(ys) THEN "lt" ELSE IF Head(xs) > Head(ys) THEN "gt" ELSE Cmp(Tail(xs), Tail(ys))
Kd(k, xs) == [i \in DOMAIN xs |-> Key(k, xs[i])]
Swap(v, i) == [v EXCEPT ![1] = v[i], ![i] = v[1]]
Opt(xs) == IF xs = <<>> THEN <<"none">> ELSE <<"some", Head(xs)>>
Bool(b) == Val(IF b THEN "true" ELSE "false")
\* the alternative with (0-based) index i exists
InAlts(v, i) == i + 2 <= Len(v)

Same(v, r) == [r |-> r, v |-> v]
New(v) == [r |-> L(v), v |-> v]
No(v, how) == [r |-> how, v |-> v]

\* sorts of arguments: xs list, i index, p predicate, f function, k key, q part, s step, W lists
Sig(op) ==
  CASE op \in {"make", "add_alternatives", "combine", "combine_rev"} -> <<"xs">>
    [] op \in {"cmp", "eq_part"} -> <<"ys">>
    [] op = "cmp_class" -> <<"k", "xs">>
    [] op \in {"first", "alternatives", "len", "is_empty", "has_alternatives", "to_vec", "dedup", "fold", "display"} -> <<>>
    [] op \in {"find_first", "filter", "filter_values"} -> <<"p">>
    [] op \in {"dedup_by_key", "to_map_with_key", "dedup_class"} -> <<"k">>
    [] op \in {"remove_alternative", "try_remove_alternative", "swap_with_alternative", "try_swap_with_alternative"} -> <<"i">>
    [] op \in {"fmap", "fmap_alternatives"} -> <<"f">>
    [] op \in {"flatten", "try_flatten", "flatten_sorted", "bind"} -> <<"q">>
    [] op = "bind_take" -> <<"q", "i">>
    [] op = "sequence" -> <<"s">>
    [] op = "sum" -> <<"W">>
Ops == {"make", "add_alternatives", "combine", "combine_rev", "cmp", "first", "alternatives", "len", "is_empty", "has_alternatives", "to_vec",
        "dedup", "dedup_class", "cmp_class", "eq_part", "fold", "display", "find_first", "filter", "filter_values", "dedup_by_key", "to_map_with_key", "remove_alternative",
        "try_remove_alternative", "swap_with_alternative", "try_swap_with_alternative", "fmap", "fmap_alternatives", "flatten",
        "try_flatten", "flatten_sorted", "bind", "bind_take", "sequence", "sum"}

Do(v, op, a) ==
  CASE op = "make" -> New(a[1])
    [] op = "add_alternatives" -> New(v \o a[1])
    [] op = "combine" -> New(v \o a[1])
    [] op = "combine_rev" -> New(a[1] \o v)
    [] op = "cmp" -> Same(v, Val(Cmp(v, a[1])))
    [] op = "first" -> Same(v, Opt(v))
    [] op = "alternatives" -> Same(v, L(Alts(v)))
    [] op = "len" -> Same(v, Val(Len(v)))
    [] op = "is_empty" -> Same(v, Bool(v = <<>>))
    [] op = "has_alternatives" -> Same(v, Bool(Len(v) > 1))
    [] op = "to_vec" -> Same(v, L(v))
    [] op = "dedup" -> New(DedupBy("id", v, {}))
    \* values that are equal when their keys are
    [] op = "dedup_class" -> New(DedupBy(a[1], v, {}))
    [] op = "cmp_class" -> Same(v, Val(Cmp(Kd(a[1], v), Kd(a[1], a[2]))))
    [] op = "eq_part" -> Same(v, Bool(v = a[1] /\ \A i \in DOMAIN v : ~Strange(v[i])))
    [] op = "fold" -> Same(v, Val(FoldL("z", v)))
    [] op = "display" -> Same(v, Val(IF Len(v) <= 1 THEN Show(v, "") ELSE ToString(v[1]) \o " | " \o Show(Tail(v), ", ")))
    [] op = "find_first" -> Same(v, Opt(SelectSeq(v, LAMBDA x : Holds(a[1], x))))
    [] op = "filter" -> New(Prim(v) \o SelectSeq(Alts(v), LAMBDA x : Holds(a[1], x)))
    [] op = "filter_values" -> New(SelectSeq(v, LAMBDA x : Holds(a[1], x)))
    [] op = "dedup_by_key" -> New(DedupBy(a[1], v, {}))
    [] op = "to_map_with_key" -> Same(v, L(LET d == DedupBy(a[1], v, {})
                                                 ks == Sorted([i \in DOMAIN d |-> Key(a[1], d[i])])
                                             IN [i \in DOMAIN ks |-> <<ks[i], d[CHOOSE j \in DOMAIN d : Key(a[1], d[j]) = ks[i]]>>]))
    [] op \in {"remove_alternative", "try_remove_alternative"} ->
         IF InAlts(v, a[1]) THEN New(RemoveAt(v, a[1] + 2)) ELSE No(v, IF op = "remove_alternative" THEN Panic ELSE Refused)
    [] op \in {"swap_with_alternative", "try_swap_with_alternative"} ->
         IF InAlts(v, a[1]) THEN New(Swap(v, a[1] + 2)) ELSE No(v, IF op = "swap_with_alternative" THEN Panic ELSE Refused)
    [] op = "fmap" -> New([i \in DOMAIN v |-> F(a[1], v[i])])
    [] op = "fmap_alternatives" -> New([i \in DOMAIN v |-> IF i = 1 THEN v[1] ELSE F(a[1], v[i])])
    [] op \in {"flatten", "try_flatten", "flatten_sorted"} ->
         IF v # <<>> /\ Part(a[1], v[1]) = <<>> THEN No(v, IF op = "try_flatten" THEN Refused ELSE Panic)
         ELSE LET xs == Flat(a[1], v) IN New(IF op = "flatten_sorted" THEN Prim(xs) \o Sorted(Alts(xs)) ELSE xs)
    [] op = "bind" -> New(Flat(a[1], v))
    \* only the first of what a lazy bind gives
    [] op = "bind_take" -> LET xs == Flat(a[1], v) IN Same(v, L(SubSeq(xs, 1, IF a[2] < Len(xs) THEN a[2] ELSE Len(xs))))
    [] op = "sequence" -> IF \E i \in DOMAIN v : Refuses(a[1], v[i]) THEN Same(v, <<"none">>) ELSE [r |-> <<"some", L(v)>>, v |-> v]
    [] op = "sum" -> New(v \o Concat(a[1]))

\* the elements the caller's function is run on, in order ("?": not promised)
UpTo(p, v) == LET hit == {i \in DOMAIN v : Holds(p, v[i])} IN
  IF hit = {} THEN v ELSE SubSeq(v, 1, CHOOSE i \in hit : \A j \in hit : i <= j)
RECURSIVE Needed(_, _, _)
Needed(k, n, v) == IF n <= 0 \/ v = <<>> THEN <<>> ELSE <<Head(v)>> \o Needed(k, n - Len(Part(k, Head(v))), Tail(v))
Called(v, op, a) ==
  CASE op \in {"fold", "filter_values", "dedup_by_key", "fmap", "bind"} -> v
    [] op = "find_first" -> UpTo(a[1], v)
    [] op \in {"filter", "fmap_alternatives"} -> Alts(v)
    [] op = "bind_take" -> Needed(a[1], a[2], v)
    [] OTHER -> <<"?">>
=============================================================================
