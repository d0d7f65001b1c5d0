------------------------------ MODULE AsyncMC ------------------------------
(* Every small async program under every order of progress; the cases are the *)
(* programs with the groups of steps let go between two polls.                *)
EXTENDS Async, Json, IOUtils, CSV
CONSTANTS Kind, MaxSize
Out == IOEnv.VK_OUT

RECURSIVE Shares(_)
Shares(p) ==
  CASE p[1] = "share" -> TRUE
    [] p[1] \in {"fmap", "fmapw"} -> Shares(p[3])
    [] p[1] = "recov" -> Shares(p[2])
    [] p[1] \in {"bind", "ap"} -> Shares(p[2]) \/ Shares(p[3])
    [] p[1] = "zip" -> Shares(p[3]) \/ Shares(p[4])
    [] OTHER -> FALSE
RECURSIVE Progs(_, _)
Atoms(v) == {<<"pure", "x">>, <<IF Kind = "share" THEN "tick" ELSE "step", "n">>} \cup {<<"var", i>> : i \in 1..v}
            \cup (IF Kind = "fail" THEN {<<"boom", "n">>, <<"res", "n", "t", "d">>, <<"res", "n", "f", "d">>} ELSE {})
Progs(k, v) ==
  IF k = 1 THEN Atoms(v)
  ELSE {<<"fmap", "f", p>> : p \in Progs(k - 1, v)}
       \cup {<<"fmapw", "n", p>> : p \in Progs(k - 1, v)}
       \cup (IF Kind = "fail" THEN {<<"recov", p, "r">> : p \in Progs(k - 1, v)} ELSE {})
       \cup (IF Kind = "share" THEN {<<"share", "g", p>> : p \in {q \in Progs(k - 1, v) : ~Shares(q)}} ELSE {})
       \cup UNION {{<<"bind", p, q>> : p \in Progs(i, v), q \in Progs(k - 1 - i, v + 1)} : i \in 1..(k - 2)}
       \cup UNION {{<<"zip", "g", p, q>> : p \in Progs(i, v), q \in Progs(k - 1 - i, v)} : i \in 1..(k - 2)}
       \cup UNION {{<<"ap", p, q>> : p \in Progs(i, v), q \in Progs(k - 1 - i, v)} : i \in 1..(k - 2)}

\* steps are given distinct names, left to right
Name(n) == <<"a", "b", "c", "d", "e", "h", "i", "j", "k">>[n]
RECURSIVE Ren(_, _)
Ren(p, n) ==
  CASE p[1] \in {"step", "tick", "boom"} -> <<<<p[1], Name(n)>>, n + 1>>
    [] p[1] = "res" -> <<<<"res", Name(n), p[3], p[4]>>, n + 1>>
    [] p[1] = "fmap" -> LET r == Ren(p[3], n) IN <<<<"fmap", p[2], r[1]>>, r[2]>>
    [] p[1] = "share" -> LET r == Ren(p[3], n) IN <<<<"share", p[2], r[1]>>, r[2]>>
    [] p[1] = "fmapw" -> LET r == Ren(p[3], n + 1) IN <<<<"fmapw", Name(n), r[1]>>, r[2]>>
    [] p[1] = "recov" -> LET r == Ren(p[2], n) IN <<<<"recov", r[1], p[3]>>, r[2]>>
    [] p[1] \in {"bind", "ap"} -> LET r == Ren(p[2], n) q == Ren(p[3], r[2]) IN <<<<p[1], r[1], q[1]>>, q[2]>>
    [] p[1] = "zip" -> LET r == Ren(p[3], n) q == Ren(p[4], r[2]) IN <<<<"zip", p[2], r[1], q[1]>>, q[2]>>
    [] OTHER -> <<p, n>>

VARIABLES prog, tree, log, sched, nid
vars == <<prog, tree, log, sched, nid>>

Init == /\ \E k \in 1..MaxSize : \E p \in Progs(k, 0) : prog = Ren(p, 1)[1]
        /\ tree = Expand(prog, <<>>)
        /\ log = <<>> /\ sched = <<>> /\ nid = 1

RECURSIVE SetToSeq_(_)
SetToSeq_(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SetToSeq_(S \ {x})
RECURSIVE GoAll(_, _)
GoAll(t, S) == IF S = {} THEN t ELSE LET x == CHOOSE x \in S : TRUE IN
               GoAll(CHOOSE u \in On(t, [op |-> "go", i |-> x[3]]) : TRUE, S \ {x})

Begin == \E x \in Leaves(tree) : /\ x[1] = "step" /\ x[4] = "new"
            /\ tree' \in On(tree, [op |-> "begin", n |-> x[2], i |-> nid])
            /\ log' = Append(log, <<"b", x[2]>>) /\ nid' = nid + 1 /\ UNCHANGED sched
End == \E x \in Leaves(tree) : /\ x[1] = "step" /\ x[4] = "open"
            /\ tree' \in On(tree, [op |-> "end", i |-> x[3]])
            /\ log' = Append(log, <<"e", x[2]>>) /\ UNCHANGED <<sched, nid>>
Boom == \E x \in Leaves(tree) : /\ x[1] = "boom"
            /\ tree' \in On(tree, [op |-> "boom", n |-> x[2]])
            /\ log' = Append(log, <<"x", x[2]>>) /\ UNCHANGED <<sched, nid>>
Go == /\ Blocked(tree)
      /\ \E G \in SUBSET {x \in Leaves(tree) : x[1] = "step"} :
           /\ G # {}
           /\ tree' = GoAll(tree, G)
           /\ sched' = Append(sched, SetToSeq_({x[2] : x \in G}))
           /\ UNCHANGED <<log, nid>>

Res(t) == IF Bad(t) THEN "PANIC" ELSE t[2]
Case == [p |-> prog, sched |-> sched', res |-> Res(tree')]
Next == /\ ~Over(tree)
        /\ Begin \/ End \/ Boom \/ Go
        /\ prog' = prog
        /\ Over(tree') => CSVWrite("%1$s", <<ToJson(Case)>>, Out)
Spec == Init /\ [][Next]_vars

\* programs that need no step at all are cases too
ASSUME \A k \in 1..MaxSize : \A p \in Progs(k, 0) :
         LET q == Ren(p, 1)[1] t == Expand(q, <<>>) IN
         Over(t) => CSVWrite("%1$s", <<ToJson([p |-> q, sched |-> <<>>, res |-> Res(t)])>>, Out)

\* ---- an independent meaning: the value, <<>> for a panic (of programs that give the same on every run)
RECURSIVE Den(_, _)
Den(p, vs) ==
  CASE p[1] = "pure" -> <<p[2]>>
    [] p[1] = "var"  -> <<vs[p[2]]>>
    [] p[1] = "step" -> <<p[2]>>
    [] p[1] = "res"  -> <<IF p[3] = "t" THEN p[2] ELSE p[4]>>
    [] p[1] = "boom" -> <<>>
    [] p[1] \in {"fmap", "fmapw"} -> LET d == Den(p[3], vs) IN IF d = <<>> THEN d ELSE <<p[2] \o d[1]>>
    [] p[1] = "bind" -> LET d == Den(p[2], vs) IN IF d = <<>> THEN d ELSE Den(p[3], Append(vs, d[1]))
    [] p[1] = "ap"   -> LET d == Den(p[2], vs) e == Den(p[3], vs) IN IF d = <<>> \/ e = <<>> THEN <<>> ELSE <<d[1] \o e[1]>>
    [] p[1] = "zip"  -> LET d == Den(p[3], vs) e == Den(p[4], vs) IN
                        IF d = <<>> \/ e = <<>> THEN <<>> ELSE <<App2(p[2], d[1], e[1])>>
    [] p[1] = "recov" -> LET d == Den(p[2], vs) IN IF d = <<>> THEN <<p[3]>> ELSE d

\* static order: end n before begin m
RECURSIVE Steps(_), Must(_)
Steps(p) ==
  CASE p[1] \in {"step", "tick", "res", "boom"} -> {p[2]}
    [] p[1] \in {"fmap", "share"} -> Steps(p[3])
    [] p[1] = "fmapw" -> {p[2]} \cup Steps(p[3])
    [] p[1] = "recov" -> Steps(p[2])
    [] p[1] \in {"bind", "ap"} -> Steps(p[2]) \cup Steps(p[3])
    [] p[1] = "zip" -> Steps(p[3]) \cup Steps(p[4])
    [] OTHER -> {}
Must(p) ==
  CASE p[1] \in {"fmap", "share"} -> Must(p[3])
    [] p[1] = "fmapw" -> Must(p[3]) \cup (Steps(p[3]) \X {p[2]})
    [] p[1] = "recov" -> Must(p[2])
    [] p[1] = "bind" -> Must(p[2]) \cup Must(p[3]) \cup (Steps(p[2]) \X Steps(p[3]))
    [] p[1] = "ap" -> Must(p[2]) \cup Must(p[3])
    [] p[1] = "zip" -> Must(p[3]) \cup Must(p[4])
    [] OTHER -> {}

SameValue == (Over(tree) /\ Kind # "share") => Den(prog, <<>>) = IF Bad(tree) THEN <<>> ELSE <<tree[2]>>
At(e) == {i \in 1..Len(log) : log[i] = e}
RECURSIVE Times(_, _)
\* how many times a run performs a step
Times(p, n) ==
  CASE p[1] \in {"step", "tick", "res", "boom"} -> IF p[2] = n THEN 1 ELSE 0
    [] p[1] = "share" -> 2 * Times(p[3], n)
    [] p[1] = "fmap" -> Times(p[3], n)
    [] p[1] = "fmapw" -> Times(p[3], n) + (IF p[2] = n THEN 1 ELSE 0)
    [] p[1] = "recov" -> Times(p[2], n)
    [] p[1] \in {"bind", "ap"} -> Times(p[2], n) + Times(p[3], n)
    [] p[1] = "zip" -> Times(p[3], n) + Times(p[4], n)
    [] OTHER -> 0
\* only binding orders steps, and it does; no step begins twice; each end has its begin
Ordered == /\ \A pr \in Must(prog) : \A j \in At(<<"b", pr[2]>>) \cup At(<<"x", pr[2]>>) :
                 (At(<<"b", pr[1]>>) # {} /\ ~Bad(tree) /\ Kind # "fail" /\ ~Shares(prog)) => \E i \in At(<<"e", pr[1]>>) : i < j
           /\ ~Shares(prog) => \A i, j \in 1..Len(log) : log[i] = log[j] => i = j
           /\ \A i \in 1..Len(log) : log[i][1] = "e" => \E j \in 1..(i - 1) : log[j] = <<"b", log[i][2]>>
\* without failures every step runs exactly once
Whole == (Over(tree) /\ Kind # "fail") => \A n \in Steps(prog) : Cardinality(At(<<"e", n>>)) = Times(prog, n)
NoStuck == Over(tree) \/ ENABLED Next
=============================================================================
