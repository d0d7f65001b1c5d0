--------------------------------- MODULE Pred ---------------------------------
(* Predicates as the sets they describe: a machine over a stack of sets of      *)
(* the domain.  A program builds predicates of any nesting; nothing it does to  *)
(* one predicate may change another one on the stack.                          *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

Dom == 0..5
Atoms == [zero |-> {0}, odd |-> {1, 3, 5}, big |-> {3, 4, 5}, none |-> {}, every |-> Dom]
(* A predicate tells, for every point, whether it holds there (b) and which of  *)
(* the atoms it is made of have to be asked, in which order (q): the right      *)
(* operand only where the left one leaves the answer open.                      *)
Basic(set, name) == [x \in Dom |-> [b |-> x \in set, q |-> IF name \in {"none", "every"} THEN <<>> ELSE <<name>>]]
Or(p, q) == [x \in Dom |-> IF p[x].b THEN p[x] ELSE [b |-> q[x].b, q |-> p[x].q \o q[x].q]]
Neg(p) == [x \in Dom |-> [p[x] EXCEPT !.b = ~@]]
And(p, q) == Neg(Or(Neg(p), Neg(q)))
Less(p, q) == And(p, Neg(q))
Set(p) == {x \in Dom : p[x].b}
\* what an operation needs on the stack, and what it leaves: the last element is the top
Need(op) == IF op[1] = "atom" \/ op[1] = "set" THEN 0 ELSE IF op[1] \in {"dup", "neg", "all"} THEN 1 ELSE 2
Apply(stk, op) ==
  LET n == Len(stk)
      rest1 == SubSeq(stk, 1, n - 1) rest2 == SubSeq(stk, 1, n - 2)
      p == stk[n - 1] q == stk[n] IN
  CASE op[1] = "atom" -> Append(stk, Basic(Atoms[op[2]], op[2]))
    [] op[1] = "set" -> Append(stk, Basic({x \in Dom : op[2][x + 1] = 1}, op[3]))
    [] op[1] = "dup" -> Append(stk, q)
    [] op[1] = "swap" -> rest2 \o <<q, p>>
    [] op[1] = "neg" -> Append(rest1, Neg(q))
    [] op[1] = "union" -> Append(rest2, Or(p, q))
    [] op[1] = "inter" -> Append(rest2, And(p, q))
    [] op[1] = "diff" -> Append(rest2, Less(p, q))
    \* keeps both operands
    [] op[1] = "over" -> Append(stk, Or(p, q))
    [] op[1] = "both" -> Append(stk, And(p, q))
    [] op[1] = "less" -> Append(stk, Less(p, q))
    [] op[1] = "all" -> <<FoldLeft(Or, Basic({}, "none"), stk)>>
Table(p) == [i \in 1..Cardinality(Dom) |-> <<IF p[i - 1].b THEN 1 ELSE 0, p[i - 1].q>>]
Tables(stk) == [i \in DOMAIN stk |-> Table(stk[i])]
=============================================================================
