-------------------------------- MODULE Optics --------------------------------
(* A structure and the lenses and prisms that look into it.                      *)
(*   <<"rec", x1, x2, x3, x4>>   a record: two fields, and a nested record of two *)
(*   <<"circle", x>> <<"rect", x, y>> <<"blank">> <<"boxed", shape>>   a sum      *)
(* A field's value is <<base, tag>>; its type's equality looks at the base only,  *)
(* so "set what is already there" and "set something equal" are different things. *)
(* The closure log c lists the calls of setters ("set"), reviewers ("make") and   *)
(* modifying functions (their argument's base).                                   *)
EXTENDS Integers, Sequences, SequencesExt, TLC

Out(r, n, c) == [r |-> r, n |-> n, c |-> c]
ToC(n, c) == Out(<<"to">>, n, c)
See(v, r) == Out(r, v, <<>>)
K(v) == v[1]
Val(x) == <<x[1], x[2]>>
Same(x, y) == x[1] = y[1]
\* a focus is one value or a pair of them, as a sequence of values
Equal(a, b) == \A i \in 1..Len(a) : Same(a[i], b[i])
Fun(f, x) == CASE f \in {"f", "g"} -> <<f \o "(" \o x[1] \o ")", x[2]>> [] f = "keep" -> x [] f = "retag" -> <<x[1], "9">>
FunAll(f, a) == [i \in 1..Len(a) |-> Fun(f, a[i])]
\* a modifying function logs the base of the first value of its argument
Arg(a) == <<a[1][1]>>

\* ---- lenses: the fields they focus.  m: mapped through a bijection, mm: twice, n: composed of two lenses
LensFields(L) == CASE L \in {"1", "m1", "mm1"} -> <<1>> [] L = "2" -> <<2>> [] L \in {"n3", "m3"} -> <<3>> [] L = "n4" -> <<4>> [] L \in {"nest", "mnest"} -> <<3, 4>>
Lenses == {"1", "m1", "mm1", "2", "n3", "m3", "n4", "nest", "mnest"}
Get(L, s) == [i \in 1..Len(LensFields(L)) |-> s[LensFields(L)[i] + 1]]
Put(L, s, a) == [j \in 1..5 |-> LET w == SelectInSeq(LensFields(L), LAMBDA i : i + 1 = j) IN IF w = 0 THEN s[j] ELSE a[w]]

\* ---- prisms: the case they match.  b: a circle inside a box
Prisms == {"circle", "rect", "bcircle"}
Preview(P, s) ==
  CASE P = "circle" -> IF K(s) = "circle" THEN <<s[2]>> ELSE <<>>
    [] P = "rect" -> IF K(s) = "rect" THEN <<s[2], s[3]>> ELSE <<>>
    [] P = "bcircle" -> IF K(s) = "boxed" /\ K(s[2]) = "circle" THEN <<s[2][2]>> ELSE <<>>
Review(P, a) == CASE P = "circle" -> <<"circle", a[1]>> [] P = "rect" -> <<"rect", a[1], a[2]>> [] P = "bcircle" -> <<"boxed", <<"circle", a[1]>>>>
Shapes == {"circle", "rect", "blank", "boxed"}

Ops(v) == IF K(v) = "rec" THEN {<<"get", "L">>, <<"set", "La">>, <<"set_always", "La">>, <<"modify", "Lf">>, <<"modify_always", "Lf">>}
          ELSE {<<"preview", "P">>, <<"review", "Pa">>, <<"modify", "Pf">>, <<"set_if_different", "Pa">>, <<"box", "">>}
Do(v, op, a) ==
  IF K(v) = "rec" THEN
    LET L == a[1] old == Get(L, v) IN
    CASE op = "get" -> See(v, <<"val">> \o old)
      [] op = "set" -> IF Equal(old, a[2]) THEN ToC(v, <<>>) ELSE ToC(Put(L, v, a[2]), <<"set">>)
      [] op = "set_always" -> ToC(Put(L, v, a[2]), <<"set">>)
      [] op = "modify" -> LET new == FunAll(a[2], old) IN
                          IF Equal(old, new) THEN ToC(v, Arg(old)) ELSE ToC(Put(L, v, new), Arg(old) \o <<"set">>)
      [] op = "modify_always" -> ToC(Put(L, v, FunAll(a[2], old)), Arg(old) \o <<"set">>)
  ELSE
    IF op = "box" THEN (IF K(v) = "boxed" THEN ToC(v[2], <<>>) ELSE ToC(<<"boxed", v>>, <<>>))
    ELSE LET P == a[1] old == Preview(P, v) IN
    CASE op = "preview" -> See(v, IF old = <<>> THEN <<"none">> ELSE <<"some">> \o old)
      [] op = "review" -> ToC(Review(P, a[2]), <<"make">>)
      [] op = "modify" -> IF old = <<>> THEN ToC(v, <<>>)
                          ELSE LET new == FunAll(a[2], old) IN
                               IF Equal(old, new) THEN ToC(v, Arg(old)) ELSE ToC(Review(P, new), Arg(old) \o <<"make">>)
      [] op = "set_if_different" -> IF old # <<>> /\ Equal(old, a[2]) THEN ToC(v, <<>>) ELSE ToC(Review(P, a[2]), <<"make">>)
\* the number of values in a focus
Width(a) == IF a \in {"nest", "mnest", "rect"} THEN 2 ELSE 1
=============================================================================
