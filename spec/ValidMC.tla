------------------------------- MODULE ValidMC -------------------------------
(* Every history of operations on a validated value up to a depth.            *)
EXTENDS Valid, Json, CSV, IOUtils
CONSTANTS Depth
Out == IOEnv.VK_OUT
VARIABLES v, d
vars == <<v, d>>
Vs == {Ok("a"), Ok("b"), Err(<<>>), Err(<<"x">>), Err(<<"y", "x">>), Err(<<"z", "z", "y">>)}
\* enough errors to leave a small buffer
Many(n) == [i \in 1..n |-> <<"x", "y", "z", "y">>[((i - 1) % 4) + 1]]
Starts == Vs \cup {Err(Many(n)) : n \in {7, 8, 9}}
Pool(sort) ==
  CASE sort = "x" -> {"a", "u"} [] sort = "e" -> {"x", "w"} [] sort = "f" -> {"f", "g"} [] sort = "k" -> {"s", "e", "c"}
    [] sort = "es" -> {<<>>, <<"x">>, <<"y", "x">>, <<"p", "q", "r", "s", "t", "u", "v", "w", "x">>}
    [] sort = "q" -> Recs [] sort = "w" -> Vs
    [] sort = "ws" -> {<<>>} \cup {<<p>> : p \in Vs} \cup {<<p, q>> : p, q \in Vs}
    [] sort = "xs" -> {<<>>, <<"a">>, <<"b", "a">>, <<"a", "b", "a">>, <<"b", "c", "d">>}
RECURSIVE ArgsOf(_)
ArgsOf(sig) == IF sig = <<>> THEN {<<>>} ELSE {Append(as, x) : as \in ArgsOf(Front(sig)), x \in Pool(Last(sig))}
Init == v \in Starts /\ d = 0
Next ==
  /\ d < Depth
  /\ \E op \in VOps : \E a \in ArgsOf(VSig(op)) :
       LET s == Do(v, op, a) IN
       /\ CSVWrite("%1$s", <<ToJson([v |-> v, op |-> op, a |-> a, r |-> s.r, n |-> s.v, c |-> s.c])>>, Out)
       /\ v' = s.v /\ d' = d + 1 /\ Len(s.v) < 20
Spec == Init /\ [][Next]_vars

TypeOK == v[1] \in {"ok", "err"} /\ (IsOk(v) => Len(v) = 2)
\* no combination loses or reorders an error; a success needs every operand to succeed
NothingLost ==
  /\ \A w \in Vs :
     /\ Errs(Do(v, "apply_pair", <<w>>).v) = Errs(v) \o Errs(w)
     /\ IsOk(Do(v, "apply_pair", <<w>>).v) <=> (IsOk(v) /\ IsOk(w))
     /\ IsOk(Do(v, "combine", <<w>>).v) <=> (IsOk(v) \/ IsOk(w))
     /\ ~(IsOk(v) /\ IsOk(w)) => Do(v, "combine_errors", <<w>>).r = Err(Errs(v) \o Errs(w))
  /\ \A u, w \in Vs : LET r == Do(v, "collect_before", <<<<u, w>>>>).r IN
       /\ Errs(r) = Errs(v) \o Errs(u) \o Errs(w)
       /\ IsOk(r) <=> (IsOk(v) /\ IsOk(u) /\ IsOk(w))
  /\ Do(v, "recover_all", <<"ren">>).r = Do(v, "fmap_invalid", <<"r">>).r
  /\ Laws("validated", v, Vs)
=============================================================================
