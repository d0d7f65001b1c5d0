-------------------------------- MODULE Eff --------------------------------
(***************************************************************************)
(* Effect programs and the machine that runs them.  One abstract machine   *)
(* (control, continuation stack, environment, state, log, choice points)   *)
(* for State, StateT over Id/Option/Result/list, Reader, ReaderT over      *)
(* Option/Result, Writer and IO.  Each of these monads admits a subset of  *)
(* the program forms below.  Values, states, environments, errors and log  *)
(* entries are strings; a function f applied to x is the string f \o x.    *)
(*                                                                         *)
(*   pure x | var i            a value, the i-th bound variable            *)
(*   get | put s | putv i | modify f | gets f | setst s x                  *)
(*   ask | asks f | local f p                                              *)
(*   eff n                     log n, return n  (Writer: tell)             *)
(*   tick n                    log n, return the state, then n in front of *)
(*                             it (IO: a cell of the world)                *)
(*   boom n                    log n, fail with n (IO: panic)              *)
(*   fail e                    failure of the base monad                   *)
(*   amb p q                   both, in order (list base)                  *)
(*   fmap f p | bind p q (one more variable in q) | join p q               *)
(*   ap pf pv                  pf's value names the function               *)
(*   comb g p q                both, then g; p first                       *)
(*   par g p q                 both from the same state, then g; the state *)
(*                             of q stays                                  *)
(*   ifv i c p q               p if variable i begins with c, else q       *)
(*   when n b p q              log n; p if b = "t", else q                 *)
(*   seq <<p..>> | seqc <<p..>>  all in order; seqc runs them all and      *)
(*                             collects the failures                       *)
(*   catch p q                 on failure q, with the error bound          *)
(*   catchd p d                on failure the value d                      *)
(*   try p                     the outcome of p as a value                 *)
(*   mapfail f p               errors mapped                               *)
(*   same p                    p (conversions there and back, clones)      *)
(***************************************************************************)
EXTENDS Naturals, Sequences

App(f, x)     == f \o x
\* g joins two values: "<" keeps the first, ">" the second, "+" their concatenation
App2(g, x, y) == CASE g = "<" -> x [] g = ">" -> y [] g = "+" -> x \o y [] OTHER -> g \o x \o "," \o y \o ";"
Head1(x)      == IF Len(x) = 0 THEN "" ELSE SubSeq(x, 1, 1)

RECURSIVE Cat(_)
Cat(xs) == IF xs = <<>> THEN "" ELSE xs[1] \o "," \o Cat(Tail(xs))
Joined(xs) == "[" \o Cat(xs)
JoinedErr(xs) == "E" \o Cat(xs)

\* a machine about to run p
Load(p, s0, r0) == [c |-> <<"run", p, <<>>>>, k |-> <<>>, r |-> r0, s |-> s0,
                    log |-> <<>>, cps |-> <<>>, res |-> <<>>]

Done(m) == m.c[1] = "done"

Run(m, p, vs)  == [m EXCEPT !.c = <<"run", p, vs>>]
Ret(m, x)      == [m EXCEPT !.c = <<"ret", x>>]
Fail(m, e)     == [m EXCEPT !.c = <<"fail", e>>]
Push(m, f)     == [m EXCEPT !.k = <<f>> \o m.k]
Pop(m)         == [m EXCEPT !.k = Tail(m.k)]
Logged(m, n)   == [m EXCEPT !.log = Append(m.log, n)]
SetS(m, s)     == [m EXCEPT !.s = s]
SetR(m, r)     == [m EXCEPT !.r = r]

\* ---- starting a program form
Start(m, p, vs) ==
  CASE p[1] = "pure"   -> Ret(m, p[2])
    [] p[1] = "var"    -> Ret(m, vs[p[2]])
    [] p[1] = "get"    -> Ret(m, m.s)
    [] p[1] = "put"    -> Ret(SetS(m, p[2]), "u")
    [] p[1] = "swap"   -> Ret(SetS(m, p[2]), m.s)
    [] p[1] = "putv"   -> Ret(SetS(m, vs[p[2]]), "u")
    [] p[1] = "modify" -> Ret(SetS(m, App(p[2], m.s)), "u")
    [] p[1] = "gets"   -> Ret(m, App(p[2], m.s))
    [] p[1] = "setst"  -> Ret(SetS(m, p[2]), p[3])
    [] p[1] = "ask"    -> Ret(m, m.r)
    [] p[1] = "asks"   -> Ret(m, App(p[2], m.r))
    [] p[1] = "local"  -> Run(SetR(Push(m, <<"env", m.r>>), App(p[2], m.r)), p[3], vs)
    [] p[1] = "eff"    -> Ret(Logged(m, p[2]), p[2])
    [] p[1] = "tell"   -> Ret(Logged(m, p[2]), "u")
    [] p[1] = "tick"   -> Ret(SetS(Logged(m, p[2]), App(p[2], m.s)), m.s)
    [] p[1] = "boom"   -> Fail(Logged(m, p[2]), p[2])
    [] p[1] = "fail"   -> Fail(m, p[2])
    [] p[1] = "amb"    -> Run([m EXCEPT !.cps = <<[p |-> p[3], vs |-> vs, k |-> m.k, r |-> m.r, s |-> m.s]>> \o m.cps],
                              p[2], vs)
    [] p[1] = "fmap"   -> Run(Push(m, <<"fmap", p[2]>>), p[3], vs)
    [] p[1] \in {"bind", "join"} -> Run(Push(m, <<"bind", p[3], vs>>), p[2], vs)
    [] p[1] = "ap"     -> Run(Push(m, <<"apf", p[3], vs>>), p[2], vs)
    [] p[1] = "comb"   -> Run(Push(m, <<"comb1", p[2], p[4], vs>>), p[3], vs)
    [] p[1] = "share"  -> Run(Push(m, <<"comb1", p[2], p[3], vs>>), p[3], vs)
    [] p[1] = "rec"    -> Run(m, <<"comb", p[2], p[3], <<"comb", p[2], p[3], <<"pure", ".">>>>>>, vs)
    [] p[1] = "par"    -> Run(Push(m, <<"par1", p[2], p[4], vs, m.s, m.r>>), p[3], vs)
    [] p[1] = "ifv"    -> Run(m, IF Head1(vs[p[2]]) = p[3] THEN p[4] ELSE p[5], vs)
    [] p[1] = "when"   -> Run(Logged(m, p[2]), IF p[3] = "t" THEN p[4] ELSE p[5], vs)
    [] p[1] = "seq"    -> IF p[2] = <<>> THEN Ret(m, Joined(<<>>))
                          ELSE Run(Push(m, <<"seq", <<>>, Tail(p[2]), vs>>), p[2][1], vs)
    [] p[1] = "seqc"   -> IF p[2] = <<>> THEN Ret(m, Joined(<<>>))
                          ELSE Run(Push(m, <<"seqc", <<>>, <<>>, Tail(p[2]), vs>>), p[2][1], vs)
    [] p[1] = "catch"  -> Run(Push(m, <<"catch", p[3], vs>>), p[2], vs)
    [] p[1] = "catchd" -> Run(Push(m, <<"catchd", p[3]>>), p[2], vs)
    [] p[1] = "try"    -> Run(Push(m, <<"try">>), p[2], vs)
    [] p[1] = "same"   -> Run(m, p[2], vs)
    [] p[1] = "mapfail" -> Run(Push(m, <<"mapfail", p[2]>>), p[3], vs)

SeqC(m, f, oks, errs) ==
  IF f[4] = <<>> THEN Ret(m, IF errs = <<>> THEN Joined(oks) ELSE JoinedErr(errs))
  ELSE Run(Push(m, <<"seqc", oks, errs, Tail(f[4]), f[5]>>), f[4][1], f[5])

\* ---- a value meets the topmost frame
Resume(m0, x) ==
  LET f == m0.k[1]
      m == Pop(m0)
  IN
  CASE f[1] = "env"    -> Ret(SetR(m, f[2]), x)
    [] f[1] = "fmap"   -> Ret(m, App(f[2], x))
    [] f[1] = "bind"   -> Run(m, f[2], Append(f[3], x))
    [] f[1] = "apf"    -> Run(Push(m, <<"fmap", x>>), f[2], f[3])
    [] f[1] = "comb1"  -> Run(Push(m, <<"comb2", f[2], x>>), f[3], f[4])
    [] f[1] = "comb2"  -> Ret(m, App2(f[2], f[3], x))
    [] f[1] = "par1"   -> Run(SetR(SetS(Push(m, <<"comb2", f[2], x>>), f[5]), f[6]), f[3], f[4])
    [] f[1] = "parf"   -> Fail(m, f[2])
    [] f[1] = "seq"    -> LET xs == Append(f[2], x) IN
                          IF f[3] = <<>> THEN Ret(m, Joined(xs))
                          ELSE Run(Push(m, <<"seq", xs, Tail(f[3]), f[4]>>), f[3][1], f[4])
    [] f[1] = "seqc"   -> SeqC(m, f, Append(f[2], x), f[3])
    [] f[1] \in {"catch", "catchd", "mapfail"} -> Ret(m, x)
    [] f[1] = "try"    -> Ret(m, "o" \o x)

\* ---- a failure meets the topmost frame
Unwind(m0, e) ==
  LET f == m0.k[1]
      m == Pop(m0)
  IN
  CASE f[1] = "env"    -> Fail(SetR(m, f[2]), e)
    [] f[1] = "par1"   -> Run(SetR(SetS(Push(m, <<"parf", e>>), f[5]), f[6]), f[3], f[4])
    [] f[1] = "parf"   -> Fail(m, f[2])
    [] f[1] = "seqc"   -> SeqC(m, f, f[2], Append(f[3], e))
    [] f[1] = "catch"  -> Run(m, f[2], Append(f[3], e))
    [] f[1] = "catchd" -> Ret(m, f[2])
    [] f[1] = "try"    -> Ret(m, "e" \o e)
    [] f[1] = "mapfail" -> Fail(m, App(f[2], e))
    [] OTHER           -> Fail(m, e)

\* ---- an outcome with nothing left to do: the next choice point, or the end
Outcome(m, o) ==
  LET m1 == [m EXCEPT !.res = IF o[1] = "fail" /\ o[2] = "empty" THEN m.res ELSE Append(m.res, o)] IN
  IF m.cps = <<>> THEN [m1 EXCEPT !.c = <<"done">>]
  ELSE LET q == m.cps[1] IN
       [m1 EXCEPT !.c = <<"run", q.p, q.vs>>, !.k = q.k, !.r = q.r, !.s = q.s, !.cps = Tail(m.cps)]

StepM(m) ==
  CASE m.c[1] = "run"  -> Start(m, m.c[2], m.c[3])
    [] m.c[1] = "ret"  -> IF m.k = <<>> THEN Outcome(m, <<"ok", m.s, m.c[2]>>) ELSE Resume(m, m.c[2])
    [] m.c[1] = "fail" -> IF m.k = <<>> THEN Outcome(m, <<"fail", m.c[2]>>) ELSE Unwind(m, m.c[2])

RECURSIVE RunAll(_)
RunAll(m) == IF Done(m) THEN m ELSE RunAll(StepM(m))

\* the whole behaviour of a program: outcomes and log
Meaning(p, s0, r0) == LET m == RunAll(Load(p, s0, r0)) IN [res |-> m.res, log |-> m.log]

(***************************************************************************)
(* An independent, compositional meaning for the forms without choice:     *)
(* Den(p, vs, s, r) = outcome, state, log.  The machine must agree with it.*)
(***************************************************************************)
RECURSIVE Den(_, _, _, _)
\* d then continue with K on success
Ok(x, s, l)  == [ok |-> TRUE, v |-> x, s |-> s, l |-> l]
Ko(e, s, l)  == [ok |-> FALSE, v |-> e, s |-> s, l |-> l]
More(l, d)   == [d EXCEPT !.l = l \o d.l]

RECURSIVE DenSeq(_, _, _, _, _), DenSeqC(_, _, _, _, _, _)
DenSeq(ps, vs, s, r, xs) ==
  IF ps = <<>> THEN Ok(Joined(xs), s, <<>>)
  ELSE LET d == Den(ps[1], vs, s, r) IN
       IF d.ok THEN More(d.l, DenSeq(Tail(ps), vs, d.s, r, Append(xs, d.v))) ELSE d
DenSeqC(ps, vs, s, r, xs, es) ==
  IF ps = <<>> THEN Ok(IF es = <<>> THEN Joined(xs) ELSE JoinedErr(es), s, <<>>)
  ELSE LET d == Den(ps[1], vs, s, r) IN
       More(d.l, DenSeqC(Tail(ps), vs, d.s, r, IF d.ok THEN Append(xs, d.v) ELSE xs, IF d.ok THEN es ELSE Append(es, d.v)))

Den(p, vs, s, r) ==
  CASE p[1] = "pure"   -> Ok(p[2], s, <<>>)
    [] p[1] = "var"    -> Ok(vs[p[2]], s, <<>>)
    [] p[1] = "get"    -> Ok(s, s, <<>>)
    [] p[1] = "put"    -> Ok("u", p[2], <<>>)
    [] p[1] = "swap"   -> Ok(s, p[2], <<>>)
    [] p[1] = "putv"   -> Ok("u", vs[p[2]], <<>>)
    [] p[1] = "modify" -> Ok("u", p[2] \o s, <<>>)
    [] p[1] = "gets"   -> Ok(p[2] \o s, s, <<>>)
    [] p[1] = "setst"  -> Ok(p[3], p[2], <<>>)
    [] p[1] = "ask"    -> Ok(r, s, <<>>)
    [] p[1] = "asks"   -> Ok(p[2] \o r, s, <<>>)
    [] p[1] = "local"  -> Den(p[3], vs, s, p[2] \o r)
    [] p[1] = "eff"    -> Ok(p[2], s, <<p[2]>>)
    [] p[1] = "tell"   -> Ok("u", s, <<p[2]>>)
    [] p[1] = "tick"   -> Ok(s, p[2] \o s, <<p[2]>>)
    [] p[1] = "boom"   -> Ko(p[2], s, <<p[2]>>)
    [] p[1] = "fail"   -> Ko(p[2], s, <<>>)
    [] p[1] = "fmap"   -> LET d == Den(p[3], vs, s, r) IN IF d.ok THEN [d EXCEPT !.v = p[2] \o d.v] ELSE d
    [] p[1] \in {"bind", "join"} ->
         LET d == Den(p[2], vs, s, r) IN IF d.ok THEN More(d.l, Den(p[3], Append(vs, d.v), d.s, r)) ELSE d
    [] p[1] = "ap"     -> LET d == Den(p[2], vs, s, r) IN
                          IF ~d.ok THEN d
                          ELSE LET e == Den(p[3], vs, d.s, r) IN
                               More(d.l, IF e.ok THEN [e EXCEPT !.v = d.v \o e.v] ELSE e)
    [] p[1] = "comb"   -> LET d == Den(p[3], vs, s, r) IN
                          IF ~d.ok THEN d
                          ELSE LET e == Den(p[4], vs, d.s, r) IN
                               More(d.l, IF e.ok THEN [e EXCEPT !.v = App2(p[2], d.v, e.v)] ELSE e)
    [] p[1] = "share"  -> Den(<<"comb", p[2], p[3], p[3]>>, vs, s, r)
    [] p[1] = "rec"    -> LET d == Den(p[3], vs, s, r) IN
                             IF ~d.ok THEN d
                             ELSE LET e == Den(<<"comb", p[2], p[3], <<"pure", ".">>>>, vs, d.s, r) IN
                                  More(d.l, IF e.ok THEN [e EXCEPT !.v = App2(p[2], d.v, e.v)] ELSE e)
    [] p[1] = "par"    -> LET d == Den(p[3], vs, s, r)
                              e == Den(p[4], vs, s, r)
                          IN IF ~d.ok THEN Ko(d.v, e.s, d.l \o e.l)
                             ELSE More(d.l, IF e.ok THEN [e EXCEPT !.v = App2(p[2], d.v, e.v)] ELSE e)
    [] p[1] = "ifv"    -> Den(IF Head1(vs[p[2]]) = p[3] THEN p[4] ELSE p[5], vs, s, r)
    [] p[1] = "when"   -> More(<<p[2]>>, Den(IF p[3] = "t" THEN p[4] ELSE p[5], vs, s, r))
    [] p[1] = "seq"    -> DenSeq(p[2], vs, s, r, <<>>)
    [] p[1] = "seqc"   -> DenSeqC(p[2], vs, s, r, <<>>, <<>>)
    [] p[1] = "catch"  -> LET d == Den(p[2], vs, s, r) IN
                          IF d.ok THEN d ELSE More(d.l, Den(p[3], Append(vs, d.v), d.s, r))
    [] p[1] = "catchd" -> LET d == Den(p[2], vs, s, r) IN IF d.ok THEN d ELSE Ok(p[3], d.s, d.l)
    [] p[1] = "try"    -> LET d == Den(p[2], vs, s, r) IN Ok((IF d.ok THEN "o" ELSE "e") \o d.v, d.s, d.l)
    [] p[1] = "same"   -> Den(p[2], vs, s, r)
    [] p[1] = "mapfail" -> LET d == Den(p[3], vs, s, r) IN IF d.ok THEN d ELSE [d EXCEPT !.v = p[2] \o d.v]

=============================================================================
