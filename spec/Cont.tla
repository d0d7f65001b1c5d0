-------------------------------- MODULE Cont --------------------------------
(***************************************************************************)
(* Continuation programs and the machine that runs them: control, the       *)
(* continuation as a stack of frames (a value that can be captured), and    *)
(* the answers that are still awaited.                                      *)
(*                                                                          *)
(*   pure x | var i | eff n (logs n, gives n)                               *)
(*   fmap f p | bind p q (one more variable) | ap pf pv (pf first)          *)
(*   cc p          call/cc: one more escape in p                            *)
(*   esc j p       the value of p goes to the j-th escape                   *)
(*   wrap w p      the answer of everything from here on, prefixed by w     *)
(*   twice p q     runs its continuation with p's value and then with q's,  *)
(*                 and joins the answers                                    *)
(*   abort r       answers r, whatever was to come                          *)
(*   same p        p (conversions between Cont and ContT and back)          *)
(* One program is run with several final continuations in turn, and nothing *)
(* a run does is seen by the next.  "k" answers <v> for v, "j" answers (v)  *)
(* twice over, "n" answers nothing at all; each logs that it was called.    *)
(* "!" is the answer None of ContT over Option.                             *)
(***************************************************************************)
EXTENDS Naturals, Sequences

None == "!"
Wrap(w, a)   == IF a = None THEN None ELSE w \o a
Join(a, b)   == IF a = None \/ b = None THEN None ELSE a \o b

Final(f, x) ==
  CASE f = "k" -> "<" \o x \o ">"
    [] f = "j" -> "(" \o x \o ")(" \o x \o ")"
    [] f = "n" -> None
LoadF(p, f) == [c |-> <<"run", p, <<>>, <<>>>>, f |-> f, k |-> <<>>, mk |-> <<>>, log |-> <<>>, ans |-> ""]
Load(p) == LoadF(p, "k")
Done(m) == m.c[1] = "done"

Run(m, p, vs, ks) == [m EXCEPT !.c = <<"run", p, vs, ks>>]
Ret(m, x) == [m EXCEPT !.c = <<"ret", x>>]
Ans(m, a) == [m EXCEPT !.c = <<"ans", a>>]
Push(m, f) == [m EXCEPT !.k = <<f>> \o m.k]
Meta(m, f) == [m EXCEPT !.mk = <<f>> \o m.mk]
Logged(m, n) == [m EXCEPT !.log = Append(m.log, n)]

Start(m, p, vs, ks) ==
  CASE p[1] = "pure"  -> Ret(m, p[2])
    [] p[1] = "var"   -> Ret(m, vs[p[2]])
    [] p[1] = "eff"   -> Ret(Logged(m, p[2]), p[2])
    [] p[1] = "fmap"  -> Run(Push(m, <<"fmap", p[2]>>), p[3], vs, ks)
    [] p[1] = "bind"  -> Run(Push(m, <<"bind", p[3], vs, ks>>), p[2], vs, ks)
    [] p[1] = "ap"    -> Run(Push(m, <<"apf", p[3], vs, ks>>), p[2], vs, ks)
    [] p[1] = "cc"    -> Run(m, p[2], vs, Append(ks, m.k))
    [] p[1] = "esc"   -> Run(Push(m, <<"esc", ks[p[2]]>>), p[3], vs, ks)
    [] p[1] = "wrap"  -> Run(Meta(m, <<"wrap", p[2]>>), p[3], vs, ks)
    [] p[1] = "twice" -> Run(Meta(m, <<"again", p[3], vs, ks, m.k>>), p[2], vs, ks)
    [] p[1] = "abort" -> Ans(m, p[2])
    [] p[1] = "same"  -> Run(m, p[2], vs, ks)

Resume(m0, x) ==
  LET f == m0.k[1]
      m == [m0 EXCEPT !.k = Tail(m0.k)]
  IN CASE f[1] = "fmap" -> Ret(m, f[2] \o x)
       [] f[1] = "bind" -> Run(m, f[2], Append(f[3], x), f[4])
       [] f[1] = "apf"  -> Run(Push(m, <<"fmap", x>>), f[2], f[3], f[4])
       [] f[1] = "esc"  -> Ret([m EXCEPT !.k = f[2]], x)

Answer(m0, a) ==
  LET f == m0.mk[1]
      m == [m0 EXCEPT !.mk = Tail(m0.mk)]
  IN CASE f[1] = "wrap"  -> Ans(m, Wrap(f[2], a))
       [] f[1] = "again" -> Run([Meta(m, <<"cat", a>>) EXCEPT !.k = f[5]], f[2], f[3], f[4])
       [] f[1] = "cat"   -> Ans(m, Join(f[2], a))

StepM(m) ==
  CASE m.c[1] = "run" -> Start(m, m.c[2], m.c[3], m.c[4])
    [] m.c[1] = "ret" -> IF m.k = <<>> THEN Ans(Logged(m, m.f \o m.c[2]), Final(m.f, m.c[2])) ELSE Resume(m, m.c[2])
    [] m.c[1] = "ans" -> IF m.mk = <<>> THEN [m EXCEPT !.c = <<"done">>, !.ans = m.c[2]] ELSE Answer(m, m.c[2])

RECURSIVE RunAll(_)
RunAll(m) == IF Done(m) THEN m ELSE RunAll(StepM(m))
Meaning(p) == LET m == RunAll(Load(p)) IN [ans |-> m.ans, log |-> m.log]

(***************************************************************************)
(* Independent meaning of programs without twice: an escape is an exception *)
(* to its call/cc, an abort an exception to the top, a wrap a mark left on  *)
(* the final answer.  o: <<"val", x>>, <<"esc", level, x>>, <<"abort", r>>. *)
(***************************************************************************)
RECURSIVE Den(_, _, _)
D(o, w, l) == [o |-> o, w |-> w, l |-> l]
After(d, e) == [e EXCEPT !.w = d.w \o e.w, !.l = d.l \o e.l]
Den(p, vs, depth) ==
  CASE p[1] = "pure"  -> D(<<"val", p[2]>>, <<>>, <<>>)
    [] p[1] = "var"   -> D(<<"val", vs[p[2]]>>, <<>>, <<>>)
    [] p[1] = "eff"   -> D(<<"val", p[2]>>, <<>>, <<p[2]>>)
    [] p[1] = "fmap"  -> LET d == Den(p[3], vs, depth) IN
                         IF d.o[1] = "val" THEN [d EXCEPT !.o = <<"val", p[2] \o d.o[2]>>] ELSE d
    [] p[1] = "bind"  -> LET d == Den(p[2], vs, depth) IN
                         IF d.o[1] = "val" THEN After(d, Den(p[3], Append(vs, d.o[2]), depth)) ELSE d
    [] p[1] = "ap"    -> LET d == Den(p[2], vs, depth) IN
                         IF d.o[1] # "val" THEN d
                         ELSE LET e == After(d, Den(p[3], vs, depth)) IN
                              IF e.o[1] = "val" THEN [e EXCEPT !.o = <<"val", d.o[2] \o e.o[2]>>] ELSE e
    [] p[1] = "cc"    -> LET d == Den(p[2], vs, depth + 1) IN
                         IF d.o[1] = "esc" /\ d.o[2] = depth + 1 THEN [d EXCEPT !.o = <<"val", d.o[3]>>] ELSE d
    [] p[1] = "esc"   -> LET d == Den(p[3], vs, depth) IN
                         IF d.o[1] = "val" THEN [d EXCEPT !.o = <<"esc", p[2], d.o[2]>>] ELSE d
    [] p[1] = "wrap"  -> LET d == Den(p[3], vs, depth) IN [d EXCEPT !.w = <<p[2]>> \o d.w]
    [] p[1] = "abort" -> D(<<"abort", p[2]>>, <<>>, <<>>)
    [] p[1] = "same"  -> Den(p[2], vs, depth)

RECURSIVE Wraps(_, _)
Wraps(ws, a) == IF ws = <<>> THEN a ELSE Wrap(ws[1], Wraps(Tail(ws), a))
DenMeaning(p, f) ==
  LET d == Den(p, <<>>, 0) IN
  IF d.o[1] = "val" THEN [ans |-> Wraps(d.w, Final(f, d.o[2])), log |-> Append(d.l, f \o d.o[2])]
  ELSE [ans |-> Wraps(d.w, d.o[2]), log |-> d.l]

RECURSIVE NoTwice(_)
NoTwice(p) ==
  CASE p[1] \in {"pure", "var", "eff", "abort"} -> TRUE
    [] p[1] \in {"fmap", "esc", "wrap"} -> NoTwice(p[3])
    [] p[1] \in {"cc", "same"} -> NoTwice(p[2])
    [] p[1] \in {"bind", "ap"} -> NoTwice(p[2]) /\ NoTwice(p[3])
    [] p[1] = "twice" -> FALSE
=============================================================================
