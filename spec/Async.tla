------------------------------- MODULE Async -------------------------------
(***************************************************************************)
(* Async programs and the tree of what is still to be done.                 *)
(*                                                                          *)
(* Programs:                                                                *)
(*   pure x | var i                                                         *)
(*   step n           begin n, wait to be let go, end n, give n             *)
(*   res n ok d       the same; gives n if ok = "t", the default d if not   *)
(*   tick n           the same; gives n and the number of its execution, so  *)
(*                    that no two executions give the same                   *)
(*   boom n           logs n and panics                                     *)
(*   fmap f p         f \o value          fmapw n p  p, then step n, n \o v *)
(*   bind p q         q with one more variable                              *)
(*   ap pf pv | zip g p q | pair p q    both, concurrently                  *)
(*   recov p d        d if p panics                                         *)
(*   share g p        one computation run twice, concurrently               *)
(*                                                                          *)
(* Trees: val x | panic | step n id st r | boom n | fmap f t | fmapw n t |  *)
(*        bind q vs t | ap t t | zip g t t | recov d t                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

App2(g, x, y) == g \o x \o "," \o y \o ";"
IsVal(t) == t[1] = "val"
Bad(t) == t[1] = "panic"
Panic == <<"panic">>
Val(x) == <<"val", x>>

RECURSIVE Expand(_, _), Norm(_)
\* a node whose children are normal
Norm(t) ==
  CASE t[1] = "fmap"  -> IF Bad(t[3]) THEN Panic ELSE IF IsVal(t[3]) THEN Val(t[2] \o t[3][2]) ELSE t
    [] t[1] = "fmapw" -> IF Bad(t[3]) THEN Panic
                         ELSE IF IsVal(t[3]) THEN <<"step", t[2], 0, "new", t[2] \o t[3][2]>> ELSE t
    [] t[1] = "bind"  -> IF Bad(t[4]) THEN Panic ELSE IF IsVal(t[4]) THEN Expand(t[2], Append(t[3], t[4][2])) ELSE t
    [] t[1] = "ap"    -> IF Bad(t[2]) \/ Bad(t[3]) THEN Panic
                         ELSE IF IsVal(t[2]) /\ IsVal(t[3]) THEN Val(t[2][2] \o t[3][2]) ELSE t
    [] t[1] = "zip"   -> IF Bad(t[3]) \/ Bad(t[4]) THEN Panic
                         ELSE IF IsVal(t[3]) /\ IsVal(t[4]) THEN Val(App2(t[2], t[3][2], t[4][2])) ELSE t
    [] t[1] = "recov" -> IF Bad(t[3]) THEN Val(t[2]) ELSE IF IsVal(t[3]) THEN t[3] ELSE t
    [] OTHER -> t

Expand(p, vs) ==
  CASE p[1] = "pure"  -> Val(p[2])
    [] p[1] = "var"   -> Val(vs[p[2]])
    [] p[1] = "step"  -> <<"step", p[2], 0, "new", p[2]>>
    [] p[1] = "tick"  -> <<"step", p[2], 0, "new", "#">>
    [] p[1] = "res"   -> <<"step", p[2], 0, "new", IF p[3] = "t" THEN p[2] ELSE p[4]>>
    [] p[1] = "boom"  -> <<"boom", p[2]>>
    [] p[1] = "fmap"  -> Norm(<<"fmap", p[2], Expand(p[3], vs)>>)
    [] p[1] = "fmapw" -> Norm(<<"fmapw", p[2], Expand(p[3], vs)>>)
    [] p[1] = "bind"  -> Norm(<<"bind", p[3], vs, Expand(p[2], vs)>>)
    [] p[1] = "ap"    -> Norm(<<"ap", Expand(p[2], vs), Expand(p[3], vs)>>)
    [] p[1] = "zip"   -> Norm(<<"zip", p[2], Expand(p[3], vs), Expand(p[4], vs)>>)
    [] p[1] = "recov" -> Norm(<<"recov", p[3], Expand(p[2], vs)>>)
    [] p[1] = "share" -> Norm(<<"zip", p[2], Expand(p[3], vs), Expand(p[3], vs)>>)

\* ---- events: begin n i | go i | end i | boom n
Leaf(t, e) ==
  CASE e.op = "begin" -> IF t[1] = "step" /\ t[2] = e.n /\ t[4] = "new" THEN {<<"step", t[2], e.i, "run", IF t[5] = "#" THEN t[2] \o "#" \o ToString(e.i) ELSE t[5]>>} ELSE {}
    [] e.op = "go"    -> IF t[1] = "step" /\ t[3] = e.i /\ t[4] = "run" THEN {<<"step", t[2], t[3], "open", t[5]>>} ELSE {}
    [] e.op = "end"   -> IF t[1] = "step" /\ t[3] = e.i /\ t[4] = "open" THEN {Val(t[5])} ELSE {}
    [] e.op = "boom"  -> IF t = <<"boom", e.n>> THEN {Panic} ELSE {}
    [] OTHER -> {}

RECURSIVE On(_, _)
On(t, e) ==
  CASE t[1] \in {"fmap", "fmapw", "recov"} -> {Norm(<<t[1], t[2], u>>) : u \in On(t[3], e)}
    [] t[1] = "bind" -> {Norm(<<"bind", t[2], t[3], u>>) : u \in On(t[4], e)}
    [] t[1] = "ap"   -> {Norm(<<"ap", u, t[3]>>) : u \in On(t[2], e)} \cup {Norm(<<"ap", t[2], u>>) : u \in On(t[3], e)}
    [] t[1] = "zip"  -> {Norm(<<"zip", t[2], u, t[4]>>) : u \in On(t[3], e)}
                        \cup {Norm(<<"zip", t[2], t[3], u>>) : u \in On(t[4], e)}
    [] OTHER -> Leaf(t, e)

RECURSIVE Leaves(_)
Leaves(t) ==
  CASE t[1] \in {"fmap", "fmapw", "recov"} -> Leaves(t[3])
    [] t[1] = "bind" -> Leaves(t[4])
    [] t[1] = "ap"   -> Leaves(t[2]) \cup Leaves(t[3])
    [] t[1] = "zip"  -> Leaves(t[3]) \cup Leaves(t[4])
    [] OTHER -> {t}

\* nothing can be done without a step being let go: concurrent sides have all begun
Blocked(t) == \A x \in Leaves(t) : x[1] = "val" \/ (x[1] = "step" /\ x[4] = "run")
Over(t) == IsVal(t) \/ Bad(t)
=============================================================================
