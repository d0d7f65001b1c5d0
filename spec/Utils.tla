--------------------------------- MODULE Utils ---------------------------------
(* Data on its way through the utility functions: traversals, sequences,         *)
(* pipelines, zips, folds and small adapters.  A value is                         *)
(*   <<"list", x1, ...>>                                                          *)
(*   <<"items", carrier, <<"ok", x>>, <<"err", e>>, ...>>  a list of containers   *)
(*   <<"all", carrier, "ok", x1, ...>>  <<"all", carrier, "err", e1, ...>>        *)
(*                                     a container of a list                      *)
(*   <<"one", carrier, "ok", x>>  <<"one", carrier, "err", e>>   one container    *)
(*   <<"val", x>>                                                                 *)
(* An absent value is <<"err", "">>.  The closure log c lists, for the lazy       *)
(* operations, first what was pulled out of the source ("<" x), then the calls.   *)
EXTENDS Integers, Sequences, SequencesExt, TLC

Ap(f, x) == f \o "(" \o x \o ")"
Ap2(f, x, y) == f \o "(" \o x \o "," \o y \o ")"
Holds(p, x) == CASE p = "isA" -> x = "a" [] p = "notA" -> x # "a" [] p = "all" -> TRUE [] p = "none" -> FALSE
\* a step k fails on the elements k[1] holds of, otherwise (and in failing) applies k[2]
Step(k, x) == IF Holds(k[1], x) THEN <<"err", Ap(k[2], x)>> ELSE <<"ok", Ap(k[2], x)>>
Ok(r) == r[1] = "ok"
K(v) == v[1]
From(s, i) == IF Len(s) < i THEN <<>> ELSE SubSeq(s, i, Len(s))
Xs(v) == Tail(v)
Out(r, n, c) == [r |-> r, n |-> n, c |-> c]
ToC(n, c) == Out(<<"to">>, n, c)
To(n) == ToC(n, <<>>)
See(v, r) == Out(r, v, <<>>)
List(xs) == <<"list">> \o xs
Map(Op(_), xs) == [i \in 1..Len(xs) |-> Op(xs[i])]
Hide(carrier, r) == IF carrier \in {"option", "maybe"} /\ ~Ok(r) THEN <<"err", "">> ELSE r
Least(a, b) == IF a < b THEN a ELSE b

\* ---- the short-circuiting traversal, as the loop it is: results so far, steps run
RECURSIVE Run(_, _, _)
Run(k, xs, done) ==
  IF xs = <<>> THEN [r |-> <<"ok">> \o Map(LAMBDA p : p[2], done), n |-> Len(done)]
  ELSE LET y == Step(k, Head(xs)) IN
       IF Ok(y) THEN Run(k, Tail(xs), Append(done, y)) ELSE [r |-> y, n |-> Len(done) + 1]
\* ---- the validating traversal: every step runs
RunAll(k, xs) == LET rs == Map(LAMBDA x : Step(k, x), xs) bad == SelectSeq(rs, LAMBDA r : ~Ok(r)) IN
                 IF bad = <<>> THEN <<"ok">> \o Map(LAMBDA r : r[2], rs) ELSE <<"err">> \o Map(LAMBDA r : r[2], bad)
\* ---- sequence: the first failure in order, or everything
Seqd(items) == LET bad == SelectSeq(items, LAMBDA r : ~Ok(r)) IN IF bad = <<>> THEN <<"ok">> \o Map(LAMBDA r : r[2], items) ELSE bad[1]
\* ---- the pipeline: every operation on the previous one's result until one fails
RECURSIVE Through(_, _, _)
Through(ks, r, c) == IF ks = <<>> \/ ~Ok(r) THEN [r |-> r, c |-> c]
                     ELSE Through(Tail(ks), Step(Head(ks), r[2]), Append(c, r[2]))
RECURSIVE Thru(_, _, _)
Thru(fs, x, c) == IF fs = <<>> THEN [x |-> x, c |-> c] ELSE Thru(Tail(fs), Ap(Head(fs), x), Append(c, x))
RECURSIVE Cat(_)
Cat(xs) == IF xs = <<>> THEN "" ELSE Head(xs) \o Cat(Tail(xs))
Pulls(xs) == Map(LAMBDA x : "<" \o x, xs)
\* how many operations a pipeline started
Started(ks, x) == Len(Through(ks, <<"ok", x>>, <<>>).c)

\* ---- operations <<name, signature>>; sorts: x payload, f function, p predicate, k step, l list, F functions, S steps, w monoid, c carrier
Carriers == {"option", "result", "either", "maybe", "validated"}
Ops(v) ==
  CASE K(v) = "list" -> {<<"traverse", "k">>, <<"traverse_lazy", "k">>, <<"traverse_validated", "k">>, <<"traverse_validated_lazy", "k">>,
                         <<"filter_map", "pf">>, <<"filter_map_lazy", "pf">>, <<"filter_map_collect", "k">>, <<"filter_map_collect_lazy", "k">>,
                         <<"zip_with", "lf">>, <<"zip_rev", "lf">>, <<"fold", "w">>, <<"fold_lazy", "w">>, <<"pipe", "F">>, <<"items", "ck">>}
    [] K(v) = "items" -> {<<"transform_all", "f">>, <<"read", "">>}
                         \cup (IF v[2] \in {"result", "either", "validated"} THEN {<<"sequence_with_error", "">>} ELSE {})
                         \cup (IF v[2] \in {"option", "result"} THEN {<<"sequence", "">>} ELSE {})
    [] K(v) = "all" -> {<<"open", "">>}
    [] K(v) = "one" -> {<<"open", "">>, <<"transform_chain", "f">>, <<"pipe", "F">>}
                       \cup (IF v[2] \in {"option", "result"} THEN {<<"map", "f">>, <<"flat_map", "k">>} ELSE {})
                       \cup (IF v[2] = "result" THEN {<<"bimap", "ff">>} ELSE {})
    [] K(v) = "val" -> {<<"pipeline_option", "S">>, <<"pipeline_option_lazy", "S">>, <<"pipeline_result", "S">>, <<"fan_out", "F">>,
                        <<"compose_all", "F">>, <<"const", "x">>, <<"id", "">>, <<"flip", "xf">>, <<"repeat", "n">>, <<"one", "ck">>}
Kinds == {"list", "items", "all", "one", "val"}

Do(v, op, a) ==
  CASE K(v) = "list" ->
     (LET xs == Xs(v) run == Run(a[1], xs, <<>>) IN
      CASE op = "traverse" -> ToC(<<"all", "result">> \o run.r, SubSeq(xs, 1, run.n))
        [] op = "traverse_lazy" -> ToC(<<"all", "result">> \o run.r, Pulls(SubSeq(xs, 1, run.n)) \o SubSeq(xs, 1, run.n))
        [] op = "traverse_validated" -> ToC(<<"all", "validated">> \o RunAll(a[1], xs), xs)
        [] op = "traverse_validated_lazy" -> ToC(<<"all", "validated">> \o RunAll(a[1], xs), Pulls(xs) \o xs)
        [] op \in {"filter_map", "filter_map_lazy"} ->
             LET ys == SelectSeq(xs, LAMBDA x : Holds(a[1], x)) IN
             ToC(List(Map(LAMBDA x : Ap(a[2], x), ys)), (IF op = "filter_map" THEN <<>> ELSE Pulls(xs)) \o Map(LAMBDA x : "?" \o x, xs) \o ys)
        [] op \in {"filter_map_collect", "filter_map_collect_lazy"} ->
             LET ys == SelectSeq(xs, LAMBDA x : ~Holds(a[1][1], x)) IN
             ToC(List(Map(LAMBDA x : Ap(a[1][2], x), ys)), (IF op = "filter_map_collect" THEN <<>> ELSE Pulls(xs)) \o xs)
        [] op = "zip_with" -> LET n == Least(Len(xs), Len(a[1])) IN
             ToC(List([i \in 1..n |-> Ap2(a[2], xs[i], a[1][i])]), [i \in 1..n |-> xs[i] \o "," \o a[1][i]])
        [] op = "zip_rev" -> LET n == Least(Len(xs), Len(a[1])) IN
             ToC(List([i \in 1..n |-> Ap2(a[2], a[1][i], xs[i])]), [i \in 1..n |-> a[1][i] \o "," \o xs[i]])
        [] op \in {"fold", "fold_lazy"} ->
             ToC(<<"val", IF a[1] \in {"string", "id"} THEN Cat(xs)
                          ELSE IF xs = <<>> THEN "none" ELSE "some " \o (IF a[1] = "first" THEN Head(xs) ELSE Last(xs))>>,
                 IF op = "fold" THEN <<>> ELSE Pulls(xs))
        [] op = "pipe" -> ToC(List(Map(LAMBDA x : Thru(a[1], x, <<>>).x, xs)),
                              FlattenSeq([i \in 1..Len(a[1]) |-> Map(LAMBDA x : Thru(SubSeq(a[1], 1, i - 1), x, <<>>).x, xs)]))
        [] op = "items" -> To(<<"items", a[1]>> \o Map(LAMBDA x : Hide(a[1], Step(a[2], x)), xs)))
    [] K(v) = "items" ->
     (LET items == From(v, 3) IN
      CASE op \in {"sequence", "sequence_with_error"} ->
             To(<<"all", IF op = "sequence" THEN v[2] ELSE "result">> \o Seqd(items))
        [] op = "transform_all" -> ToC(<<"items", v[2]>> \o Map(LAMBDA r : IF Ok(r) THEN <<"ok", Ap(a[1], r[2])>> ELSE r, items),
                                       Map(LAMBDA r : r[2], SelectSeq(items, Ok)))
        [] op = "read" -> To(List(Map(LAMBDA r : r[2], items))))
    [] K(v) = "all" -> To(List(From(v, 4)))
    [] K(v) = "one" ->
     (LET r == <<v[3], v[4]>> Put(s) == <<"one", v[2]>> \o s IN
      CASE op = "open" -> To(<<"val", v[4]>>)
        [] op \in {"map", "transform_chain"} -> IF Ok(r) THEN ToC(Put(<<"ok", Ap(a[1], r[2])>>), <<r[2]>>) ELSE To(v)
        [] op = "flat_map" -> IF Ok(r) THEN ToC(Put(Hide(v[2], Step(a[1], r[2]))), <<r[2]>>) ELSE To(v)
        [] op = "bimap" -> ToC(Put(<<r[1], Ap(IF Ok(r) THEN a[1] ELSE a[2], r[2])>>), <<r[2]>>)
        [] op = "pipe" -> IF Ok(r) THEN LET t == Thru(a[1], r[2], <<>>) IN ToC(Put(<<"ok", t.x>>), t.c) ELSE To(v))
    [] K(v) = "val" ->
     (LET x == v[2] t == Through(a[1], <<"ok", x>>, <<>>) IN
      CASE op = "pipeline_option" -> ToC(<<"one", "option">> \o Hide("option", t.r), t.c)
        [] op = "pipeline_option_lazy" -> ToC(<<"one", "option">> \o Hide("option", t.r), Pulls([i \in 1..Len(t.c) |-> a[1][i][2]]) \o t.c)
        [] op = "pipeline_result" -> ToC(<<"one", "result">> \o t.r, t.c)
        [] op = "fan_out" -> ToC(List(Map(LAMBDA f : Ap(f, x), a[1])), [i \in 1..Len(a[1]) |-> x])
        [] op = "compose_all" -> LET u == Thru(a[1], x, <<>>) IN ToC(<<"val", u.x>>, u.c)
        [] op = "const" -> See(v, <<"val", x>>)
        [] op = "id" -> To(v)
        [] op = "flip" -> ToC(<<"val", Ap2(a[2], x, a[1])>>, <<x \o "," \o a[1]>>)
        [] op = "repeat" -> To(List([i \in 1..a[1] |-> x \o ToString(i)]))
        [] op = "one" -> To(<<"one", a[1]>> \o Hide(a[1], Step(a[2], x))))
=============================================================================
