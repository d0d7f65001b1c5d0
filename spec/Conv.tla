--------------------------------- MODULE Conv ---------------------------------
(* One value on its way through the containers: conversions from one kind to   *)
(* another, serialization and back, and each container's own accessors.  A     *)
(* value is its kind followed by its content:                                  *)
(*   <<"option">> <<"option", x>>   <<"maybe">> <<"maybe", x>>                 *)
(*   <<"result", "ok", x>> <<"result", "err", e>>  (either: "right"/"left")    *)
(*   <<"validated", "ok", x>> <<"validated", "err", e1, ...>>                  *)
(*   <<"cresult", "ok", x>> <<"cresult", "err", core, context1, ...>>          *)
(*   <<"vec"|"choice"|"pvec", x1, ...>>  <<"id"|"sum"|..., x>>                 *)
(*   <<"first"|"last">> <<"first"|"last", x>>  <<"writer", x, log1, ...>>      *)
EXTENDS Integers, Sequences, SequencesExt, TLC

Ap(f, x) == f \o "(" \o x \o ")"
Holds(p, x) == CASE p = "isA" -> x = "a" [] p = "notA" -> x # "a" [] p = "all" -> TRUE [] p = "none" -> FALSE
K(v) == v[1]
Body(v) == Tail(v)
Has(v) == Len(v) >= 2
Out(r, n, c) == [r |-> r, n |-> n, c |-> c]
To(n) == Out(<<"to">>, n, <<>>)
See(v, r) == Out(r, v, <<>>)
Val(x) == <<"val", x>>
Bool(b) == Val(IF b THEN "true" ELSE "false")
Panic == <<"panic">>
Opt(xs) == IF xs = <<>> THEN <<"none">> ELSE <<"some", Head(xs)>>
List(xs) == <<"list">> \o xs

OptLike == {"option", "maybe", "first", "last"}
Lists == {"vec", "choice", "pvec"}
Boxes == {"id", "sum", "product", "min", "max"}
TwoSided == {"result", "either"}
Serial == {"option", "result", "either", "maybe", "id", "validated", "choice", "vec", "writer", "first", "last", "min", "max", "sum", "product"}
\* the two sides of a two-sided value
Good(v) == v[2] \in {"ok", "right"}
Ok1(kind) == IF kind = "either" THEN "right" ELSE "ok"
Er1(kind) == IF kind = "either" THEN "left" ELSE "err"
Flip(v, kind) == <<kind, IF Good(v) THEN Ok1(kind) ELSE Er1(kind)>> \o SubSeq(v, 3, Len(v))

\* ---- operations: <<name, signature>> by kind; sorts: x payload, e error, f function, p predicate, b boolean, m list
Ops(kind) ==
     (IF kind \in Serial THEN {<<"json", "">>} ELSE {})
  \cup (IF kind = "cresult" \/ kind = "vec" THEN {} ELSE {<<"peek", "">>, <<"take", "">>})
  \cup (CASE kind = "option" -> {<<"to_maybe", "">>, <<"to_validated", "e">>, <<"to_first", "">>, <<"to_last", "">>, <<"to_vec", "">>}
        [] kind = "result" -> {<<"to_either", "">>, <<"to_validated", "">>, <<"to_maybe", "">>, <<"to_cresult", "">>, <<"to_option", "">>,
                               <<"unwrap_or_default", "">>, <<"bimap", "ff">>, <<"fmap_error", "f">>, <<"unwrap", "">>}
        [] kind = "either" -> {<<"to_result", "">>, <<"to_validated", "">>, <<"is_right", "">>, <<"map_left", "f">>, <<"map_right", "f">>,
                               <<"unwrap_left", "">>, <<"unwrap", "">>, <<"right_or", "x">>, <<"left_or", "e">>, <<"right_option", "">>,
                               <<"left_option", "">>, <<"set_right", "x">>, <<"set_left", "e">>, <<"right_list", "">>, <<"left_list", "">>,
                               <<"fmap_error", "f">>, <<"make_left", "e">>, <<"make_right", "x">>}
        [] kind = "maybe" -> {<<"to_option", "">>, <<"to_result", "e">>, <<"to_standard", "">>, <<"to_cresult", "">>, <<"to_vec", "">>,
                              <<"is_just", "">>, <<"unwrap", "">>, <<"unwrap_or", "x">>, <<"unwrap_or_else", "x">>, <<"fmap_or", "xf">>,
                              <<"filter", "p">>, <<"tap", "">>, <<"set", "x">>, <<"when", "bx">>, <<"make", "x">>, <<"clear", "">>}
        [] kind = "validated" -> {<<"to_result", "">>, <<"to_either", "">>, <<"to_option", "">>, <<"to_vec", "">>, <<"to_errors", "">>, <<"fmap_error", "f">>}
        [] kind = "cresult" -> {<<"to_result", "">>}
        [] kind = "vec" -> {<<"to_choice", "">>, <<"to_pvec", "">>, <<"to_maybe", "">>, <<"collect_errors", "">>, <<"to_writer", "x">>, <<"push", "x">>}
        [] kind = "choice" -> {<<"to_vec", "">>, <<"to_pvec", "">>, <<"to_maybe", "">>}
        [] kind = "pvec" -> {<<"to_vec", "">>, <<"to_choice", "">>, <<"to_maybe", "">>}
        [] kind = "id" -> {<<"unwrap", "">>, <<"set", "x">>, <<"then", "x">>, <<"to_sum", "">>, <<"to_product", "">>, <<"to_min", "">>, <<"to_max", "">>,
                           <<"to_first", "">>, <<"to_last", "">>, <<"to_option", "">>, <<"to_either", "">>, <<"to_vec", "">>}
        [] kind \in Boxes \ {"id"} -> {<<"to_id", "">>}
        [] kind \in {"first", "last"} -> {<<"to_option", "">>}
        [] kind = "writer" -> {<<"to_vec", "">>, <<"to_id", "">>})

Inside(v) == IF K(v) \in {"result", "either", "validated"} THEN (IF Good(v) THEN <<v[3]>> ELSE <<>>) ELSE Body(v)

Do(v, op, a) ==
  LET k == K(v) IN
  CASE op = "json" -> To(v)
    \* a list keeps every element, an optional value the first one
    [] op = "to_maybe" /\ k \in Lists -> To(<<"maybe">> \o (IF Has(v) THEN <<v[2]>> ELSE <<>>))
    [] op = "to_maybe" /\ k = "result" -> To(<<"maybe">> \o (IF Good(v) THEN <<v[3]>> ELSE <<>>))
    [] op = "to_maybe" -> To(<<"maybe">> \o Body(v))
    [] op = "to_option" /\ k \in {"result", "validated"} -> To(<<"option">> \o (IF Good(v) THEN <<v[3]>> ELSE <<>>))
    [] op = "to_option" -> To(<<"option">> \o Body(v))
    [] op \in {"to_first", "to_last", "to_sum", "to_product", "to_min", "to_max", "to_choice", "to_pvec"} -> To(<<SubSeq(op, 4, Len(op))>> \o Body(v))
    [] op = "to_id" -> To(<<"id", v[2]>>)
    [] op = "to_vec" /\ k = "validated" -> To(<<"vec">> \o (IF Good(v) THEN <<v[3]>> ELSE <<>>))
    [] op = "to_errors" -> To(<<"vec">> \o (IF Good(v) THEN <<>> ELSE SubSeq(v, 3, Len(v))))
    [] op = "to_vec" /\ k = "writer" -> To(<<"vec">> \o SubSeq(v, 3, Len(v)))
    [] op = "to_vec" -> To(<<"vec">> \o Body(v))
    [] op = "to_validated" /\ k = "option" -> To(IF Has(v) THEN <<"validated", "ok", v[2]>> ELSE <<"validated", "err", a[1]>>)
    [] op = "to_validated" -> To(Flip(v, "validated"))
    [] op = "to_either" /\ k = "id" -> To(<<"either", "right", v[2]>>)
    [] op = "to_either" /\ k = "validated" /\ v = <<"validated", "err">> -> See(v, Panic)
    [] op = "to_either" /\ k = "validated" -> To(SubSeq(Flip(v, "either"), 1, 3))
    [] op = "to_either" -> To(Flip(v, "either"))
    [] op = "to_result" /\ k = "maybe" -> To(IF Has(v) THEN <<"result", "ok", v[2]>> ELSE <<"result", "err", a[1]>>)
    [] op = "to_standard" -> To(IF Has(v) THEN <<"result", "ok", v[2]>> ELSE <<"result", "err", "Attempted to access a value in a Nothing">>)
    [] op = "to_result" /\ v = <<"validated", "err">> -> See(v, Panic)
    [] op = "to_result" -> To(SubSeq(Flip(v, "result"), 1, 3))
    [] op = "to_cresult" /\ k = "maybe" -> To(IF Has(v) THEN <<"cresult", "ok", v[2]>>
                                             ELSE <<"cresult", "err", "Cannot unwrap Nothing value", "Called `try_unwrap()` on a `Nothing` value">>)
    [] op = "to_cresult" -> To(Flip(v, "cresult"))
    [] op = "collect_errors" -> To(IF Has(v) THEN <<"validated", "err">> \o Body(v) ELSE <<"validated", "ok", "()">>)
    [] op = "to_writer" -> To(<<"writer", a[1]>> \o Body(v))
    [] op = "push" -> To(Append(v, a[1]))
    \* accessors
    [] op = "is_right" -> See(v, Bool(Good(v)))
    [] op = "is_just" -> See(v, Bool(Has(v)))
    [] op = "map_right" -> IF Good(v) THEN Out(<<"to">>, <<k, v[2], Ap(a[1], v[3])>>, <<v[3]>>) ELSE To(v)
    [] op = "map_left" \/ op = "fmap_error" -> IF Good(v) THEN To(v)
         ELSE Out(<<"to">>, SubSeq(v, 1, 2) \o [i \in 1..(Len(v) - 2) |-> Ap(a[1], v[i + 2])], SubSeq(v, 3, Len(v)))
    [] op = "bimap" -> LET f == IF Good(v) THEN a[1] ELSE a[2] IN Out(<<"to">>, <<k, v[2], Ap(f, v[3])>>, <<v[3]>>)
    [] op = "unwrap_left" -> See(v, IF Good(v) THEN Panic ELSE Val(v[3]))
    [] op = "unwrap" /\ k \in TwoSided -> See(v, IF Good(v) THEN Val(v[3]) ELSE Panic)
    [] op = "unwrap" -> See(v, IF Has(v) THEN Val(v[2]) ELSE Panic)
    [] op = "right_or" -> See(v, Val(IF Good(v) THEN v[3] ELSE a[1]))
    [] op = "left_or" -> See(v, Val(IF Good(v) THEN a[1] ELSE v[3]))
    [] op = "right_option" -> To(<<"option">> \o (IF Good(v) THEN <<v[3]>> ELSE <<>>))
    [] op = "left_option" -> To(<<"option">> \o (IF Good(v) THEN <<>> ELSE <<v[3]>>))
    [] op = "right_list" -> To(<<"vec">> \o (IF Good(v) THEN <<v[3]>> ELSE <<>>))
    [] op = "left_list" -> To(<<"vec">> \o (IF Good(v) THEN <<>> ELSE <<v[3]>>))
    [] op = "set_right" -> To(IF Good(v) THEN <<k, v[2], a[1]>> ELSE v)
    [] op = "set_left" -> To(IF Good(v) THEN v ELSE <<k, v[2], a[1]>>)
    [] op = "make_left" -> To(<<"either", "left", a[1]>>) [] op = "make_right" -> To(<<"either", "right", a[1]>>)
    [] op = "unwrap_or_default" -> See(v, Val(IF Good(v) THEN v[3] ELSE ""))
    [] op = "unwrap_or" -> See(v, Val(IF Has(v) THEN v[2] ELSE a[1]))
    [] op = "unwrap_or_else" -> IF Has(v) THEN See(v, Val(v[2])) ELSE Out(Val(a[1]), v, <<"!">>)
    [] op = "fmap_or" -> IF Has(v) THEN Out(Val(Ap(a[2], v[2])), v, <<v[2]>>) ELSE See(v, Val(a[1]))
    \* the value inside, if there is one: the first one of a list
    [] op = "peek" -> See(v, Opt(Inside(v)))
    [] op = "take" -> To(<<"option">> \o (IF Inside(v) = <<>> THEN <<>> ELSE <<Head(Inside(v))>>))
    [] op = "filter" -> IF ~Has(v) THEN To(v) ELSE Out(<<"to">>, IF Holds(a[1], v[2]) THEN v ELSE <<k>>, <<v[2]>>)
    [] op = "tap" -> Out(<<"to">>, v, Body(v))
    [] op = "set" -> To(IF Has(v) THEN <<k, a[1]>> ELSE v)
    [] op = "then" -> To(<<"id", a[1]>>)
    [] op = "when" -> To(IF a[1] THEN <<"maybe", a[2]>> ELSE <<"maybe">>)
    [] op = "make" -> To(<<"maybe", a[1]>>) [] op = "clear" -> To(<<"maybe">>)
Kinds == Serial \cup {"pvec", "cresult"}
=============================================================================
