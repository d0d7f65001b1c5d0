---------------------------------- MODULE Eval ----------------------------------
(* Evaluables and their history.  A value is                                     *)
(*   <<k, b, n, f1, ...>>   k thunk, io or mine (a caller's own evaluable): its   *)
(*                          function b has run n times and answers differently    *)
(*                          every time; f1, ... are applied to the answer         *)
(*   <<"id", x>>            the identity comonad                                  *)
(* The closure log holds every run of b and every call of the caller's functions. *)
EXTENDS Integers, Sequences, SequencesExt, TLC

Out(r, n, c) == [r |-> r, n |-> n, c |-> c]
K(v) == v[1]
From(s, i) == IF Len(s) < i THEN <<>> ELSE SubSeq(s, i, Len(s))
Ap(f, x) == f \o "(" \o x \o ")"
Val(x) == <<"val", x>>
Evaluable == {"thunk", "io", "mine"}
Fs(v) == From(v, 4)
\* the answer of the n-th run
Raw(v) == v[2] \o "#" \o ToString(v[3])
RECURSIVE Through(_, _), Calls(_, _)
Through(fs, x) == IF fs = <<>> THEN x ELSE Through(Tail(fs), Ap(Head(fs), x))
Calls(fs, x) == IF fs = <<>> THEN <<>> ELSE <<x>> \o Calls(Tail(fs), Ap(Head(fs), x))
\* one evaluation: what it yields, what it runs, what is left
Yield(v) == Through(Fs(v), Raw(v))
Ran(v) == <<"run " \o Raw(v)>> \o Calls(Fs(v), Raw(v))
After(v) == [v EXCEPT ![3] = @ + 1]
Fresh(k, b) == <<k, b, 0>>
\* predicates on what is yielded
Holds(p, x) == CASE p = "yes" -> TRUE [] p = "no" -> FALSE [] p = "first" -> x = "b#0"

\* sorts: f function, k evaluable, p predicate
Ops(k) == IF k = "id" THEN {<<"extract", "">>, <<"duplicate", "">>, <<"extend", "f">>, <<"extend_extract", "">>, <<"as_thunk", "k">>}
          ELSE {<<"evaluate", "">>, <<"twice", "">>, <<"map", "f">>, <<"bind", "fk">>, <<"combine", "fk">>, <<"combine_self", "f">>,
                <<"filter", "p">>, <<"become", "k">>, <<"then", "f">>, <<"keep", "">>}
Kinds == Evaluable \cup {"id"}
Do(v, op, a) ==
  IF K(v) = "id"
  THEN CASE op = "extract" -> Out(Val(v[2]), v, <<>>)
         [] op \in {"duplicate", "extend_extract"} -> Out(<<"to">>, v, <<>>)
         [] op = "extend" -> Out(<<"to">>, <<"id", Ap(a[1], v[2])>>, <<v[2]>>)
         [] op = "as_thunk" -> Out(<<"to">>, Fresh(a[1], v[2]), <<>>)
  ELSE LET x == Yield(v) IN
       CASE op = "evaluate" -> Out(Val(x), After(v), Ran(v))
         [] op = "twice" -> Out(<<"two", x, Yield(After(v))>>, After(After(v)), Ran(v) \o Ran(After(v)))
         [] op = "map" -> Out(Val(Ap(a[1], x)), After(v), Ran(v) \o <<x>>)
         \* the caller's function makes a new evaluable of what was yielded; it runs once
         [] op = "bind" -> LET w == Fresh(a[2], Ap(a[1], x)) IN Out(Val(Yield(w)), After(v), Ran(v) \o <<x>> \o Ran(w))
         [] op = "combine" -> LET w == Fresh(a[2], "o") IN
                              Out(Val(Ap(a[1], x \o "," \o Yield(w))), After(v), Ran(v) \o Ran(w) \o <<x \o "," \o Yield(w)>>)
         [] op = "combine_self" -> LET y == Yield(After(v)) IN
                                   Out(Val(Ap(a[1], x \o "," \o y)), After(After(v)), Ran(v) \o Ran(After(v)) \o <<x \o "," \o y>>)
         [] op = "filter" -> Out(IF Holds(a[1], x) THEN <<"some", x>> ELSE <<"none">>, After(v), Ran(v) \o <<"p " \o x>>)
         \* building runs nothing
         [] op = "become" -> Out(<<"to">>, [v EXCEPT ![1] = a[1]], <<>>)
         [] op = "then" -> Out(<<"to">>, Append(v, a[1]), <<>>)
         \* yields an id
         [] op = "keep" -> Out(<<"to">>, <<"id", x>>, Ran(v))
=============================================================================
