---------------------------------- MODULE Iso ----------------------------------
(* Isomorphisms as a small language, and what is built from them.  An expression *)
(*   <<"rev">> <<"rot">> <<"id">>        bijections of sequences                  *)
(*   <<"tag", k>>                        forward appends k, backward drops the    *)
(*                                       last element: an isomorphism only onto   *)
(*                                       the sequences that end in k              *)
(*   <<"comp", e1, e2>>  <<"inv", e>>                                             *)
(* A value on its way is                                                          *)
(*   <<"u", x1, ...>>                    a sequence                               *)
(*   <<"result"|"either", "ok"|"err", x>> <<"validated", "ok", x>>                *)
(*   <<"validated", "err", e1, ...>>     the library's own pairs of types         *)
(* The closure log c lists the arguments given to the caller's functions.         *)
EXTENDS Integers, Sequences, SequencesExt, TLC

Out(r, n, c) == [r |-> r, n |-> n, c |-> c]
ToC(n, c) == Out(<<"to">>, n, c)
To(n) == ToC(n, <<>>)
See(v, r) == Out(r, v, <<>>)
SeeC(v, r, c) == Out(r, v, c)
K(v) == v[1]
Xs(v) == Tail(v)
From(s, i) == IF Len(s) < i THEN <<>> ELSE SubSeq(s, i, Len(s))
Bool(b) == <<"val", IF b THEN "true" ELSE "false">>
Ap(f, x) == f \o "(" \o x \o ")"
U(xs) == <<"u">> \o xs
RECURSIVE Show(_)
Show(xs) == IF xs = <<>> THEN "" ELSE Head(xs) \o "," \o Show(Tail(xs))
Drop(xs) == IF xs = <<>> THEN <<>> ELSE SubSeq(xs, 1, Len(xs) - 1)
RotL(xs) == IF xs = <<>> THEN xs ELSE Tail(xs) \o <<Head(xs)>>
RotR(xs) == IF xs = <<>> THEN xs ELSE <<xs[Len(xs)]>> \o Drop(xs)

RECURSIVE Fwd(_, _), Bwd(_, _)
Fwd(e, x) == CASE e[1] = "id" -> x [] e[1] = "rev" -> Reverse(x) [] e[1] = "rot" -> RotL(x) [] e[1] = "tag" -> Append(x, e[2])
               [] e[1] = "comp" -> Fwd(e[3], Fwd(e[2], x)) [] e[1] = "inv" -> Bwd(e[2], x)
Bwd(e, y) == CASE e[1] = "id" -> y [] e[1] = "rev" -> Reverse(y) [] e[1] = "rot" -> RotR(y) [] e[1] = "tag" -> Drop(y)
               [] e[1] = "comp" -> Bwd(e[2], Bwd(e[3], y)) [] e[1] = "inv" -> Fwd(e[2], y)
Laws(e, x, y) == Bwd(e, Fwd(e, x)) = x /\ Fwd(e, Bwd(e, y)) = y
RECURSIVE Total(_)
\* made of bijections only
Total(e) == CASE e[1] \in {"id", "rev", "rot"} -> TRUE [] e[1] = "tag" -> FALSE [] e[1] = "inv" -> Total(e[2]) [] e[1] = "comp" -> Total(e[2]) /\ Total(e[3])

\* the caller's functions on sequences
Fun(f, x) == CASE f = "push" -> Append(x, "z") [] f = "keep" -> x [] f = "clear" -> <<>>
\* an element in focus, "" when there is none
Elem(x, i) == IF i <= Len(x) THEN x[i] ELSE ""
PutElem(x, i, b) == IF i <= Len(x) THEN [x EXCEPT ![i] = b] ELSE x
\* focusing element i of what e makes of the structure: forward pairs the element with the structure it came from
\* a prism that takes the key k off the front; then the next key, and so on
RECURSIVE Strip(_, _)
Strip(ks, x) == IF ks = <<>> THEN <<"some">> \o x ELSE IF x # <<>> /\ Head(x) = Head(ks) THEN Strip(Tail(ks), Tail(x)) ELSE <<"none">>

\* ---- operations <<name, signature>>; sorts: e expression, y sequence, f function on sequences, i index, b element, F function on elements, P keys, s side
Ops(v) ==
  CASE K(v) = "u" -> {<<"forward", "e">>, <<"backward", "e">>, <<"modify", "ef">>, <<"from_target", "e">>, <<"from_source", "e">>, <<"verify", "ey">>,
                      <<"lens_get", "e">>, <<"lens_set", "e">>, <<"lens_modify", "ef">>, <<"focus_get", "eei">>, <<"focus_set", "eeib">>,
                      <<"focus_modify", "eeiF">>, <<"preview", "P">>, <<"review", "P">>, <<"none", "P">>, <<"to_result", "s">>}
    [] K(v) = "result" -> {<<"to_either", "">>, <<"to_validated", "">>, <<"modify_either", "F">>, <<"verify_either", "sb">>, <<"verify_validated", "sm">>,
                           <<"round", "">>}
    [] K(v) = "either" -> {<<"to_result", "">>, <<"to_validated", "">>, <<"round", "">>}
    [] K(v) = "validated" -> {<<"to_result", "">>, <<"to_either", "">>, <<"round", "">>}
Kinds == {"u", "result", "either", "validated"}
First(v) == SubSeq(v, 2, 3)
Do(v, op, a) ==
  CASE K(v) = "u" ->
     (LET x == Xs(v) IN
      CASE op \in {"forward", "lens_get"} -> To(U(Fwd(a[1], x)))
        [] op \in {"backward", "lens_set"} -> To(U(Bwd(a[1], x)))
        [] op \in {"modify", "lens_modify"} -> ToC(U(Bwd(a[1], Fun(a[2], Fwd(a[1], x)))), <<Show(Fwd(a[1], x))>>)
        [] op = "from_target" -> SeeC(v, <<"saw">> \o Fwd(a[1], x), <<Show(Fwd(a[1], x))>>)
        [] op = "from_source" -> SeeC(v, <<"saw">> \o Bwd(a[1], x), <<Show(Bwd(a[1], x))>>)
        [] op = "verify" -> See(v, Bool(Laws(a[1], x, a[2])))
        \* a[1] leads to the focused structure, a[2] back from it to the context
        [] op = "focus_get" -> See(v, <<"pair", Elem(Fwd(a[1], x), a[3]), Bwd(a[2], Fwd(a[1], x))>>)
        [] op = "focus_set" -> To(U(Bwd(a[1], PutElem(Fwd(a[2], x), a[3], a[4]))))
        [] op = "focus_modify" -> LET y == Fwd(a[1], x) b == Elem(y, a[3]) IN
                                  ToC(U(Bwd(a[1], PutElem(Fwd(a[2], Bwd(a[2], y)), a[3], Ap(a[4], b)))), <<b>>)
        [] op = "preview" -> LET s == Strip(a[1], x) IN See(v, s)
        [] op = "review" -> To(U(a[1] \o x))
        [] op = "none" -> See(v, <<"saw">>)
        [] op = "to_result" -> To(<<"result", a[1], IF x = <<>> THEN "" ELSE x[1]>>))
    [] K(v) = "result" ->
     (CASE op = "to_either" -> To(<<"either", v[2], v[3]>>)
        [] op = "to_validated" -> To(<<"validated", v[2], v[3]>>)
        [] op = "modify_either" -> IF v[2] = "ok" THEN ToC(<<"result", "ok", Ap(a[1], v[3])>>, <<v[3]>>) ELSE To(v)
        [] op = "verify_either" -> See(v, Bool(TRUE))
        \* the laws hold for a result and a validated value unless that has errors a result cannot hold
        [] op = "verify_validated" -> See(v, Bool(a[1] = "ok" \/ Len(a[2]) = 1))
        [] op = "round" -> To(v))
    [] K(v) = "either" ->
     (CASE op = "to_result" -> To(<<"result", v[2], v[3]>>)
        [] op = "to_validated" -> To(<<"validated", v[2], v[3]>>)
        [] op = "round" -> To(v))
    [] K(v) = "validated" ->
     (CASE op = "to_result" -> To(<<"result">> \o First(v))
        [] op = "to_either" -> To(<<"either">> \o First(v))
        [] op = "round" -> To(v))
=============================================================================
