-------------------------------- MODULE Valid --------------------------------
(* Validated as a machine: a value that is valid or carries a list of errors, *)
(* and everything the type can do to it.  Each operation has a result, leaves *)
(* a value behind and calls its closures in a definite order.                 *)
EXTENDS Data

\* what recovery makes of one error
Rec(k, e) ==
  CASE k = "fix" -> Ok(Ap("fix", e))
    [] k = "ren" -> Err(<<Ap("r", e)>>)
    [] k = "dup" -> Err(<<Ap("r1", e), Ap("r2", e)>>)
    [] k = "onlyx" -> IF e = "x" THEN Ok(Ap("fix", e)) ELSE Err(<<Ap("r", e)>>)
    [] k = "void" -> Err(<<>>)
Recs == {"fix", "ren", "dup", "onlyx", "void"}
\* a step over an element
Res1(k, x) == IF Refuses(k, x) THEN Err(<<Ap("e", x)>>) ELSE Ok(Ap(k, x))

Errs(v) == IF IsOk(v) THEN <<>> ELSE Tail(v)
RECURSIVE AllErrs(_)
AllErrs(vs) == IF vs = <<>> THEN <<>> ELSE Errs(Head(vs)) \o AllErrs(Tail(vs))
Collect(vs) == IF \A i \in DOMAIN vs : IsOk(vs[i]) THEN Ok(L([i \in DOMAIN vs |-> vs[i][2]])) ELSE Err(AllErrs(vs))
RECURSIVE RecoverAll(_, _, _, _)
RecoverAll(k, es, acc, calls) ==
  IF es = <<>> THEN [r |-> Err(acc), c |-> calls]
  ELSE LET r == Rec(k, Head(es)) IN
       IF IsOk(r) THEN [r |-> r, c |-> Append(calls, Head(es))]
       ELSE RecoverAll(k, Tail(es), acc \o Tail(r), Append(calls, Head(es)))

Out1(v, r, c) == [r |-> r, v |-> v, c |-> c]
New(v) == [r |-> v, v |-> v, c |-> <<>>]
See(v, r) == [r |-> r, v |-> v, c |-> <<>>]
Called1(v, r, c) == [r |-> r, v |-> r, c |-> c]

\* sorts: x payload, e error, es errors, f function, k step, q recovery, w value, ws values, xs payloads
VSig(op) ==
  CASE op \in {"make_valid", "unwrap_or", "recover_with", "set"} -> <<"x">>
    [] op \in {"make_invalid", "push_error"} -> <<"e">>
    [] op \in {"make_many", "make_vec", "collect_errors"} -> <<"es">>
    [] op \in {"fmap", "fmap_invalid", "fmap_valid_async", "errors_mut", "value_mut"} -> <<"f">>
    [] op \in {"bind", "and_then_async"} -> <<"k">>
    [] op = "bimap" -> <<"f", "f">>
    [] op \in {"combine_errors", "combine", "apply_pair", "alt", "eq"} -> <<"w">>
    [] op \in {"recover_all", "recover_at_once"} -> <<"q">>
    [] op \in {"collect_before", "collect_after"} -> <<"ws">>
    [] op = "traverse_validated" -> <<"xs", "k">>
    [] OTHER -> <<>>
Nullary == {"is_valid", "errors", "error_payload", "unwrap_invalid", "into_value", "into_error_payload", "unwrap", "to_option", "iter",
            "split", "to_result"}
VOps == Nullary \cup {"make_valid", "unwrap_or", "recover_with", "set", "make_invalid", "push_error", "make_many", "make_vec", "collect_errors",
         "fmap", "fmap_invalid", "fmap_valid_async", "errors_mut", "value_mut", "bind", "and_then_async", "bimap", "combine_errors", "combine",
         "apply_pair", "alt", "eq", "recover_all", "recover_at_once", "collect_before", "collect_after", "traverse_validated"}

Do(v, op, a) ==
  LET K == "validated" es == Errs(v) IN
  CASE op = "make_valid" -> New(Ok(a[1]))
    [] op = "make_invalid" -> New(Err(<<a[1]>>))
    [] op = "make_many" -> New(Err(a[1]))
    [] op = "make_vec" -> IF a[1] = <<>> THEN See(v, Panic) ELSE New(Err(a[1]))
    [] op = "collect_errors" -> See(v, IF a[1] = <<>> THEN Ok("()") ELSE Err(a[1]))
    [] op = "is_valid" -> See(v, Bool(IsOk(v)))
    [] op = "errors" -> See(v, L(es))
    [] op = "error_payload" -> See(v, IF IsOk(v) THEN <<"none">> ELSE <<"some", L(es)>>)
    [] op = "unwrap_invalid" -> See(v, IF IsOk(v) THEN Panic ELSE L(es))
    [] op = "into_value" -> See(v, v)
    [] op = "into_error_payload" -> See(v, v)
    [] op = "unwrap" -> See(v, IF IsOk(v) THEN Val(v[2]) ELSE Panic)
    [] op = "unwrap_or" -> See(v, Val(IF IsOk(v) THEN v[2] ELSE a[1]))
    [] op = "to_option" -> See(v, IF IsOk(v) THEN <<"some", v[2]>> ELSE <<"none">>)
    [] op = "iter" -> See(v, IF IsOk(v) THEN L(<<v[2]>>) ELSE L(<<>>))
    [] op = "split" -> See(v, IF IsOk(v) THEN L(<<Ok(v[2])>>) ELSE L([i \in DOMAIN es |-> Err(<<es[i]>>)]))
    [] op = "to_result" -> See(v, IF IsOk(v) THEN v ELSE IF es = <<>> THEN Panic ELSE Err(<<es[1]>>))
    [] op \in {"fmap", "fmap_valid_async"} -> LET r == MapV(LAMBDA x : Ap(a[1], x), v) IN Called1(v, r, IF IsOk(v) THEN <<v[2]>> ELSE <<>>)
    [] op = "fmap_invalid" -> Called1(v, MapErr(a[1], v), es)
    [] op = "bimap" -> Called1(v, MapErr(a[2], MapV(LAMBDA x : Ap(a[1], x), v)), IF IsOk(v) THEN <<v[2]>> ELSE es)
    [] op \in {"bind", "and_then_async"} -> Called1(v, BindV(LAMBDA x : Kl(K, a[1], x), v), IF IsOk(v) THEN <<v[2]>> ELSE <<>>)
    [] op = "errors_mut" -> New(MapErr(a[1], v))
    [] op = "value_mut" -> New(MapV(LAMBDA x : Ap(a[1], x), v))
    [] op = "push_error" -> New(IF IsOk(v) THEN v ELSE Append(v, a[1]))
    [] op = "set" -> New(IF IsOk(v) THEN Ok(a[1]) ELSE v)
    [] op = "combine_errors" -> IF IsOk(v) /\ IsOk(a[1]) THEN See(v, Panic) ELSE New(Err(es \o Errs(a[1])))
    [] op = "combine" -> New(Res(K, "mplus", <<v, a[1]>>))
    [] op = "alt" -> New(Res(K, "alt", <<v, a[1]>>))
    [] op = "apply_pair" -> New(Lift2V(K, LAMBDA x, y : "<" \o x \o "," \o y \o ">", v, a[1]))
    [] op = "eq" -> See(v, Bool(v = a[1]))
    [] op = "recover_with" -> New(IF IsOk(v) THEN v ELSE Ok(a[1]))
    [] op = "recover_all" -> IF IsOk(v) THEN New(v) ELSE LET r == RecoverAll(a[1], es, <<>>, <<>>) IN Called1(v, r.r, r.c)
    [] op = "recover_at_once" -> IF IsOk(v) THEN New(v) ELSE Called1(v, RecoverAll(a[1], es, <<>>, <<>>).r, <<ToString(Len(es))>>)
    [] op = "collect_before" -> See(v, Collect(<<v>> \o a[1]))
    [] op = "collect_after" -> See(v, Collect(a[1] \o <<v>>))
    [] op = "traverse_validated" -> Out1(v, Collect([i \in DOMAIN a[1] |-> Res1(a[2], a[1][i])]), a[1])
=============================================================================
