------------------------------ MODULE ChoiceMC ------------------------------
(* Every history of operations on a choice up to a depth; each step is        *)
(* written out to be performed on the real one.                               *)
EXTENDS Choice, Json, CSV, IOUtils
CONSTANTS Depth, Big
Out == IOEnv.VK_OUT
VARIABLES v, d
vars == <<v, d>>
Starts == {<<>>, <<1>>, <<2>>, <<2, 1>>, <<1, 1, 2>>, <<4, 3, 0, 3>>}
          \cup (IF Big THEN {[i \in 1..n |-> (i * 5) % 4] : n \in {7, 8, 9, 10}} ELSE {})
Lists == {<<>>, <<2>>, <<3, 1>>, <<1, 1, 2>>}
Pool(sort) ==
  CASE sort = "xs" -> Lists [] sort = "ys" -> Lists \cup {v} [] sort = "i" -> {0, 1, 2, Len(v), 8} [] sort = "p" -> Preds [] sort = "f" -> {"f", "g", "neg"}
    [] sort = "k" -> Keys [] sort = "q" -> Parts [] sort = "s" -> Steps [] sort = "W" -> {<<>>, <<<<>>, <<1>>>>, <<<<2, 3>>, <<>>, <<1, 0>>>>}
ArgsOf(sig) == IF sig = <<>> THEN {<<>>}
               ELSE IF Len(sig) = 1 THEN {<<x>> : x \in Pool(sig[1])}
               ELSE IF sig = <<"q", "i">> THEN {<<k, i>> : k \in Parts, i \in Pool("i")}
               ELSE {<<k, ys>> : k \in Keys, ys \in Lists \cup {[i \in DOMAIN v |-> v[i] + (i % 2)]}}
Init == v \in Starts /\ d = 0
Next ==
  /\ d < Depth
  /\ \E op \in Ops : \E a \in ArgsOf(Sig(op)) :
       LET s == Do(v, op, a) IN
       /\ Len(s.v) <= 14 /\ \A i \in DOMAIN s.v : s.v[i] < 1000
       /\ CSVWrite("%1$s", <<ToJson([v |-> v, op |-> op, a |-> a, r |-> s.r, n |-> s.v, c |-> Called(v, op, a)])>>, Out)
       /\ v' = s.v /\ d' = d + 1
Spec == Init /\ [][Next]_vars

Count(xs, x) == Cardinality({i \in DOMAIN xs : xs[i] = x})
TypeOK == v \in Seq(Int)
\* what every operation of the statement keeps
Laws ==
  /\ Do(v, "combine", <<<<>>>>).v = v /\ Do(v, "combine_rev", <<<<>>>>).v = v
  /\ \A a, b \in Lists : Do(Do(v, "combine", <<a>>).v, "combine", <<b>>).v = Do(v, "combine", <<Do(a, "combine", <<b>>).v>>).v
  /\ \A p \in Preds : LET w == Do(v, "filter_values", <<p>>).v IN
       /\ Do(w, "filter_values", <<p>>).v = w
       /\ \A i \in DOMAIN w : Holds(p, w[i])
       /\ \A i \in DOMAIN v : Holds(p, v[i]) => Count(w, v[i]) = Count(v, v[i])
  /\ LET w == Do(v, "dedup", <<>>).v IN \A i \in DOMAIN v : Count(w, v[i]) = 1
  /\ \A i \in 0..(Len(v) - 2) : LET w == Do(v, "swap_with_alternative", <<i>>).v IN
       /\ Do(w, "swap_with_alternative", <<i>>).v = v
       /\ Do(w, "first", <<>>).r = <<"some", v[i + 2]>>
       /\ Len(Do(v, "remove_alternative", <<i>>).v) = Len(v) - 1
  /\ \A q \in Parts : Do(v, "try_flatten", <<q>>).r # Refused => Do(v, "try_flatten", <<q>>).v = Do(v, "bind", <<q>>).v
=============================================================================
