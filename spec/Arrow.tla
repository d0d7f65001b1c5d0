--------------------------------- MODULE Arrow ---------------------------------
(* The category of functions as a categorical abstract machine.  A datum is     *)
(*   <<"s", x>>  or  <<"p", d, e>>                                              *)
(* A morphism is an expression                                                  *)
(*   <<"id">> <<"fn", f>> <<"const", x>>                                        *)
(*   <<"bin", f>> <<"flip", f>>         a function of two arguments, on a pair  *)
(*   <<"swap">>                                                                 *)
(*   <<"seq", e, g>>                    e, then g                               *)
(*   <<"first", e>> <<"second", e>> <<"par", e, g>> <<"split", e, g>>           *)
(*   <<"both", e>> <<"when", p, e>> <<"thenif", p, e, g>>                       *)
(*   <<"many", <<e1, ...>>>>            one after the other                     *)
(* The machine has a list of things to do, a stack of data, and the log of the  *)
(* calls made to the caller's functions and predicates.                         *)
EXTENDS Integers, Sequences, SequencesExt, TLC

S(x) == <<"s", x>>
P(d, e) == <<"p", d, e>>
RECURSIVE Show(_)
Show(d) == IF d[1] = "s" THEN d[2] ELSE "(" \o Show(d[2]) \o "," \o Show(d[3]) \o ")"
Ap(f, x) == f \o "(" \o x \o ")"
Call(k, n, d) == k \o n \o ":" \o Show(d)
\* the caller's predicates
Holds(p, d) == CASE p = "yes" -> TRUE [] p = "no" -> FALSE [] p = "isx" -> d = S("x") [] p = "pair" -> d[1] = "p"

Load(e, d) == [todo |-> <<e>>, stk |-> <<d>>, log |-> <<>>]
Done(m) == m.todo = <<>>
Value(m) == m.stk[1]
StepM(m) ==
  LET e == Head(m.todo) rest == Tail(m.todo) d == Head(m.stk) down == Tail(m.stk)
      Run(todo, stk) == [m EXCEPT !.todo = todo \o rest, !.stk = stk]
      Log(x, todo, stk) == [todo |-> todo \o rest, stk |-> stk, log |-> Append(m.log, x)]
  IN CASE e[1] = "id" -> Run(<<>>, m.stk)
       [] e[1] = "fn" -> Log(Call("f", e[2], d), <<>>, <<S(Ap(e[2], Show(d)))>> \o down)
       [] e[1] = "const" -> Run(<<>>, <<S(e[2])>> \o down)
       [] e[1] = "bin" -> Log(Call("b", e[2], d), <<>>, <<S(Ap(e[2], Show(d)))>> \o down)
       [] e[1] = "flip" -> Run(<<<<"swap">>, <<"bin", e[2]>>>>, m.stk)
       [] e[1] = "swap" -> Run(<<>>, <<P(d[3], d[2])>> \o down)
       [] e[1] = "seq" -> Run(<<e[2], e[3]>>, m.stk)
       [] e[1] = "first" -> Run(<<e[2], <<"join">>>>, <<d[2], d[3]>> \o down)
       [] e[1] = "second" -> Run(<<e[2], <<"exch">>, <<"join">>>>, <<d[3], d[2]>> \o down)
       [] e[1] = "par" -> Run(<<e[2], <<"exch">>, e[3], <<"exch">>, <<"join">>>>, <<d[2], d[3]>> \o down)
       [] e[1] = "split" -> Run(<<<<"par", e[2], e[3]>>>>, <<P(d, d)>> \o down)
       [] e[1] = "both" -> Run(<<<<"par", e[2], e[2]>>>>, m.stk)
       [] e[1] = "when" -> Log(Call("p", e[2], d), IF Holds(e[2], d) THEN <<e[3]>> ELSE <<>>, m.stk)
       [] e[1] = "thenif" -> Run(<<e[3], <<"when", e[2], e[4]>>>>, m.stk)
       [] e[1] = "many" -> Run(e[2], m.stk)
       \* the machine's own: put the two topmost together, exchange them
       [] e[1] = "join" -> Run(<<>>, <<P(m.stk[1], m.stk[2])>> \o SubSeq(m.stk, 3, Len(m.stk)))
       [] e[1] = "exch" -> Run(<<>>, <<m.stk[2], m.stk[1]>> \o SubSeq(m.stk, 3, Len(m.stk)))

\* ---- what a morphism denotes: a datum and the calls made on the way
D(d, c) == [d |-> d, c |-> c]
RECURSIVE Den(_, _), Dens(_, _)
Den(e, d) ==
  CASE e[1] = "id" -> D(d, <<>>)
    [] e[1] = "fn" -> D(S(Ap(e[2], Show(d))), <<Call("f", e[2], d)>>)
    [] e[1] = "const" -> D(S(e[2]), <<>>)
    [] e[1] = "bin" -> D(S(Ap(e[2], Show(d))), <<Call("b", e[2], d)>>)
    [] e[1] = "flip" -> Den(<<"bin", e[2]>>, P(d[3], d[2]))
    [] e[1] = "swap" -> D(P(d[3], d[2]), <<>>)
    [] e[1] = "seq" -> LET a == Den(e[2], d) b == Den(e[3], a.d) IN D(b.d, a.c \o b.c)
    [] e[1] = "first" -> LET a == Den(e[2], d[2]) IN D(P(a.d, d[3]), a.c)
    [] e[1] = "second" -> LET a == Den(e[2], d[3]) IN D(P(d[2], a.d), a.c)
    [] e[1] = "par" -> LET a == Den(e[2], d[2]) b == Den(e[3], d[3]) IN D(P(a.d, b.d), a.c \o b.c)
    [] e[1] = "split" -> LET a == Den(e[2], d) b == Den(e[3], d) IN D(P(a.d, b.d), a.c \o b.c)
    [] e[1] = "both" -> LET a == Den(e[2], d[2]) b == Den(e[2], d[3]) IN D(P(a.d, b.d), a.c \o b.c)
    [] e[1] = "when" -> LET q == <<Call("p", e[2], d)>> a == Den(e[3], d) IN IF Holds(e[2], d) THEN D(a.d, q \o a.c) ELSE D(d, q)
    [] e[1] = "thenif" -> LET a == Den(e[3], d) b == Den(<<"when", e[2], e[4]>>, a.d) IN D(b.d, a.c \o b.c)
    [] e[1] = "many" -> Dens(e[2], d)
Dens(es, d) == IF es = <<>> THEN D(d, <<>>)
               ELSE LET a == Den(Head(es), d) b == Dens(Tail(es), a.d) IN D(b.d, a.c \o b.c)

\* ---- shapes: "s" an atom, <<"p", l, r>> a pair, <<"bad">> no morphism
Bad == <<"bad">>
Atom == <<"s">>
RECURSIVE ShapeOf(_), Shape(_, _), Shapes(_, _)
ShapeOf(d) == IF d[1] = "s" THEN Atom ELSE P(ShapeOf(d[2]), ShapeOf(d[3]))
Shape(e, s) ==
  IF s = Bad THEN Bad
  ELSE CASE e[1] = "id" -> s
    [] e[1] \in {"fn", "const"} -> Atom
    [] e[1] \in {"bin", "flip"} -> IF s[1] = "p" THEN Atom ELSE Bad
    [] e[1] = "swap" -> IF s[1] = "p" THEN P(s[3], s[2]) ELSE Bad
    [] e[1] = "seq" -> Shape(e[3], Shape(e[2], s))
    [] e[1] = "first" -> IF s[1] # "p" \/ Shape(e[2], s[2]) = Bad THEN Bad ELSE P(Shape(e[2], s[2]), s[3])
    [] e[1] = "second" -> IF s[1] # "p" \/ Shape(e[2], s[3]) = Bad THEN Bad ELSE P(s[2], Shape(e[2], s[3]))
    [] e[1] = "par" -> IF s[1] # "p" \/ Shape(e[2], s[2]) = Bad \/ Shape(e[3], s[3]) = Bad THEN Bad ELSE P(Shape(e[2], s[2]), Shape(e[3], s[3]))
    [] e[1] = "split" -> IF Shape(e[2], s) = Bad \/ Shape(e[3], s) = Bad THEN Bad ELSE P(Shape(e[2], s), Shape(e[3], s))
    [] e[1] = "both" -> IF s[1] # "p" \/ s[2] # s[3] \/ Shape(e[2], s[2]) = Bad THEN Bad ELSE P(Shape(e[2], s[2]), Shape(e[2], s[3]))
    [] e[1] = "when" -> IF Shape(e[3], s) = s THEN s ELSE Bad
    [] e[1] = "thenif" -> IF Shape(e[3], s) = s /\ Shape(e[4], s) = s THEN s ELSE Bad
    [] e[1] = "many" -> Shapes(e[2], s)
\* a sequence runs at one type
Shapes(es, s) == IF \A i \in 1..Len(es) : Shape(es[i], s) = s THEN s ELSE Bad
=============================================================================
