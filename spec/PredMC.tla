-------------------------------- MODULE PredMC --------------------------------
(* Every program up to MaxLen operations over the atoms.                       *)
EXTENDS Pred, Json, CSV, IOUtils
CONSTANTS MaxLen, MaxStack
Out == IOEnv.VK_OUT
VARIABLES stk, prog
vars == <<stk, prog>>
Ops == {<<"atom", a>> : a \in DOMAIN Atoms} \cup {<<o>> : o \in {"dup", "swap", "neg", "union", "inter", "diff", "over", "both", "less", "all"}}
Emit == CSVWrite("%1$s", <<ToJson([p |-> prog', r |-> Tables(stk')])>>, Out)
Init == stk = <<>> /\ prog = <<>>
Next == /\ Len(prog) < MaxLen
        /\ \E op \in Ops :
             /\ Len(stk) >= Need(op)
             /\ stk' = Apply(stk, op) /\ Len(stk') <= MaxStack
             /\ prog' = Append(prog, op)
             /\ Emit
Spec == Init /\ [][Next]_vars
\* the Boolean algebra of the machine's own operations
Sets(k) == [i \in DOMAIN k |-> Set(k[i])]
Algebra ==
  Len(stk) >= 2 =>
    LET A(op) == Apply(stk, <<op>>)
        Then(s, op) == Apply(s, <<op>>)
        n == Len(stk) p == stk[n - 1] q == stk[n]
        negs == Then(Then(Then(Then(stk, "neg"), "swap"), "neg"), "swap") IN
    /\ Then(negs, "inter") = Then(A("union"), "neg")
    /\ Then(negs, "union") = Then(A("inter"), "neg")
    /\ A("diff") = Then(Then(stk, "neg"), "inter")
    /\ Sets(Then(A("swap"), "union")) = Sets(A("union")) /\ Sets(Then(A("swap"), "inter")) = Sets(A("inter"))
    /\ Then(Then(stk, "neg"), "neg") = stk
    /\ Sets(Then(A("both"), "union")) = Sets(stk) /\ Sets(Then(A("over"), "inter")) = Sets(stk)
    /\ Set(Or(p, q)) = Set(p) \cup Set(q) /\ Set(And(p, q)) = Set(p) \cap Set(q) /\ Set(Less(p, q)) = Set(p) \ Set(q)
Spread ==
  \A i, j, k \in DOMAIN stk :
    LET p == stk[i] q == stk[j] r == stk[k] IN
    /\ Set(And(p, Or(q, r))) = Set(Or(And(p, q), And(p, r)))
    /\ Or(p, Or(q, r)) = Or(Or(p, q), r) /\ And(p, And(q, r)) = And(And(p, q), r)
\* what lies to the right is asked only where the left leaves the answer open
Lazy ==
  Len(stk) >= 2 =>
    LET n == Len(stk) p == stk[n - 1] q == stk[n] IN
    \A x \in Dom : /\ Or(p, q)[x].q = IF p[x].b THEN p[x].q ELSE p[x].q \o q[x].q
                   /\ And(p, q)[x].q = IF p[x].b THEN p[x].q \o q[x].q ELSE p[x].q
                   /\ Less(p, q)[x].q = And(p, q)[x].q
=============================================================================
