-------------------------------- MODULE EvalMC --------------------------------
(* Every history of an evaluable up to Depth steps.                             *)
EXTENDS Eval, Json, CSV, IOUtils
CONSTANTS Depth
File == IOEnv.VK_OUT
VARIABLES v, d, past
vars == <<v, d, past>>
Pool(sort) == CASE sort = "f" -> {"f", "g"} [] sort = "k" -> Evaluable [] sort = "p" -> {"yes", "no", "first"}
RECURSIVE ArgsOf(_)
ArgsOf(sig) == IF sig = "" THEN {<<>>} ELSE {<<x>> \o as : x \in Pool(SubSeq(sig, 1, 1)), as \in ArgsOf(SubSeq(sig, 2, Len(sig)))}
Starts == {Fresh(k, "b") : k \in Evaluable} \cup {<<"id", "a">>}
Emit(op, a, o) == CSVWrite("%1$s", <<ToJson([v |-> v, op |-> op, a |-> a, r |-> o.r, n |-> o.n, c |-> o.c])>>, File)
Init == v \in Starts /\ d = 0 /\ past = <<>>
Next == /\ d < Depth /\ d' = d + 1 /\ past' = v
        /\ \E op \in Ops(K(v)) : \E a \in ArgsOf(op[2]) :
             LET o == Do(v, op[1], a) IN Emit(op[1], a, o) /\ v' = o.n
Spec == Init /\ [][Next]_vars

Typed == K(v) \in Kinds /\ (K(v) = "id" => Len(v) = 2)
\* a step runs the function as often as the count says, and nothing runs before it is asked for
Runs(c) == Len(SelectSeq(c, LAMBDA x : Len(x) > 4 /\ SubSeq(x, 1, 4) = "run "))
Counted == K(v) # "id" => \A op \in Ops(K(v)) : \A a \in ArgsOf(op[2]) :
  LET o == Do(v, op[1], a) IN
  /\ (op[1] \in {"become", "then"}) => o.c = <<>>
  /\ (K(o.n) # "id") => o.n[3] >= v[3]
  /\ op[1] \in {"evaluate", "map", "filter", "keep"} => Runs(o.c) = 1
  /\ op[1] \in {"twice", "bind", "combine", "combine_self"} => Runs(o.c) = 2
\* mapping what is evaluated is evaluating what is mapped; binding and combining are built of evaluations
Agree == K(v) # "id" => \A f \in {"f", "g"} :
  LET m == Do(v, "map", <<f>>) t == Do(Do(v, "then", <<f>>).n, "evaluate", <<>>) e == Do(v, "evaluate", <<>>) IN
  /\ m.r = t.r /\ m.c = t.c
  /\ m.n = e.n
  /\ Do(v, "filter", <<"yes">>).r[2] = e.r[2]
  /\ \A k \in Evaluable : Do(Do(v, "become", <<k>>).n, "evaluate", <<>>).r = e.r
\* the comonad laws
ComonadLaws == K(v) = "id" => \A f, g \in {"f", "g"} :
  /\ Do(v, "extend_extract", <<>>).n = v
  /\ Do(Do(v, "extend", <<f>>).n, "extract", <<>>).r = Val(Ap(f, v[2]))
  /\ Do(Do(v, "duplicate", <<>>).n, "extract", <<>>).r = Do(v, "extract", <<>>).r
  /\ Do(Do(v, "extend", <<f>>).n, "extend", <<g>>).n = <<"id", Ap(g, Ap(f, v[2]))>>
=============================================================================
