---------------------------------- MODULE Err ----------------------------------
(* An error on its way through the error-handling layer: raw, composable (core,  *)
(* code and a stack of contexts), inside a pipeline, finished.  A value is       *)
(*   <<"raw", e>>                     a plain error                              *)
(*   <<"comp", e, code, c1, ...>>     contexts oldest first, code "" when absent *)
(*   <<"result"|"either", "ok", x>>   <<"result"|"either", "err", e>>            *)
(*   <<"pipe", "ok", x>>              <<"pipe", "err", e, c1, ...>>              *)
(*   <<"fin", "ok", x>>               <<"fin", "err", e, c1, ...>>               *)
(*   <<"app", m>>  <<"app", m, c>>    the deprecated message-and-context error   *)
(*   <<"ctx", c>>                     a context on its own                       *)
(* A pipeline is specified as a plain result whose failure carries its contexts: *)
(* the contexts live and die with the failure they were attached to.             *)
EXTENDS Integers, Sequences, SequencesExt, TLC

Ap(f, x) == f \o "(" \o x \o ")"
\* a fallible function: k[1] says on which side it lands, k[2] what it applies
Fal(k, x) == <<k[1], Ap(k[2], x)>>
K(v) == v[1]
Out(r, n, c) == [r |-> r, n |-> n, c |-> c]
To(n) == Out(<<"to">>, n, <<>>)
ToC(n, c) == Out(<<"to">>, n, c)
See(v, r) == Out(r, v, <<>>)
Val(x) == <<"val", x>>
Bool(b) == Val(IF b THEN "true" ELSE "false")
List(xs) == <<"list">> \o xs
From(s, i) == IF Len(s) < i THEN <<>> ELSE SubSeq(s, i, Len(s))

Core(v) == v[2]
Code(v) == v[3]
Ctxs(v) == From(v, 4)
Comp(e, n, cs) == <<"comp", e, n>> \o cs
RECURSIVE Joined(_)
Joined(cs) == IF cs = <<>> THEN "" ELSE Head(cs) \o " -> " \o Joined(Tail(cs))
\* most recent context first, then the core error, then the code
Chain(v) == Joined(Reverse(Ctxs(v))) \o Core(v) \o (IF Code(v) = "" THEN "" ELSE " (code: " \o Code(v) \o ")")
Quote(x) == "\"" \o x \o "\""

Good(v) == v[2] = "ok"
PCtx(v) == From(v, 4)

\* ---- operations <<name, signature>>; sorts: x payload, e error, c context, m contexts, n code, f function, k fallible function
Ops(kind) ==
  CASE kind = "raw" -> {<<"wrap", "">>, <<"wrap_code", "n">>, <<"context", "c">>, <<"contexts", "m">>, <<"to_app", "">>, <<"to_app_with", "c">>,
                        <<"throw", "">>}
    [] kind = "comp" -> {<<"with_context", "c">>, <<"with_contexts", "m">>, <<"set_code", "n">>, <<"map_core", "f">>, <<"core", "">>,
                         <<"contexts", "">>, <<"nth", "i">>, <<"code", "">>, <<"chain", "">>, <<"text", "">>, <<"eq", "encm">>, <<"unwrap", "">>}
    [] kind = "result" -> {<<"pipe", "">>, <<"recover", "k">>, <<"bimap", "ff">>, <<"map_error", "f">>, <<"to_either", "">>, <<"context", "c">>,
                           <<"wrap", "">>, <<"lift", "x">>, <<"handle", "e">>, <<"side", "">>}
    [] kind = "either" -> {<<"recover", "k">>, <<"bimap", "ff">>, <<"map_error", "f">>, <<"to_result", "">>, <<"lift", "x">>, <<"handle", "e">>, <<"side", "">>}
    [] kind = "pipe" -> {<<"with_context", "c">>, <<"with_lazy", "c">>, <<"map", "f">>, <<"and_then", "k">>, <<"map_error", "f">>,
                         <<"recover", "k">>, <<"finish", "">>}
    [] kind = "fin" -> {<<"unwrap", "">>, <<"flatten", "">>, <<"add_context", "c">>, <<"side", "">>}
    [] kind = "app" -> {<<"map", "f">>, <<"map_context", "f">>, <<"drop_context", "">>, <<"put_context", "c">>, <<"message", "">>,
                        <<"context", "">>, <<"text", "">>, <<"eq", "eo">>}
    [] kind = "ctx" -> {<<"text", "">>, <<"eq", "c">>, <<"attach", "e">>}
Kinds == {"raw", "comp", "result", "either", "pipe", "fin", "app", "ctx"}

Do(v, op, a) ==
  CASE K(v) = "raw" ->
         (CASE op = "wrap" -> To(Comp(v[2], "", <<>>))
            [] op = "wrap_code" -> To(Comp(v[2], a[1], <<>>))
            [] op = "context" -> To(Comp(v[2], "", <<a[1]>>))
            [] op = "contexts" -> To(Comp(v[2], "", a[1]))
            [] op = "to_app" -> To(<<"app", v[2]>>)
            [] op = "to_app_with" -> To(<<"app", v[2], a[1]>>)
            [] op = "throw" -> To(<<"result", "err", v[2]>>))
    [] K(v) = "comp" ->
         (CASE op = "with_context" -> To(Append(v, a[1]))
            [] op = "with_contexts" -> To(v \o a[1])
            [] op = "set_code" -> To(Comp(Core(v), a[1], Ctxs(v)))
            [] op = "map_core" -> ToC(Comp(Ap(a[1], Core(v)), Code(v), Ctxs(v)), <<Core(v)>>)
            [] op = "core" -> See(v, Val(Core(v)))
            [] op = "contexts" -> See(v, List(Reverse(Ctxs(v))))
            [] op = "nth" -> See(v, IF a[1] < Len(Ctxs(v)) THEN <<"some", Reverse(Ctxs(v))[a[1] + 1]>> ELSE <<"none">>)
            [] op = "code" -> See(v, IF Code(v) = "" THEN <<"none">> ELSE <<"some", Code(v)>>)
            [] op \in {"chain", "text"} -> See(v, Val(Chain(v)))
            [] op = "eq" -> See(v, Bool(v = Comp(a[1], a[2], (IF a[3] = "" THEN <<>> ELSE <<a[3]>>) \o a[4])))
            [] op = "unwrap" -> To(<<"raw", Core(v)>>))
    [] K(v) \in {"result", "either"} ->
         (CASE op = "recover" -> IF Good(v) THEN To(v) ELSE ToC(<<K(v)>> \o Fal(a[1], v[3]), <<v[3]>>)
            [] op = "bimap" -> ToC(<<"result", v[2], Ap(IF Good(v) THEN a[1] ELSE a[2], v[3])>>, <<v[3]>>)
            [] op = "map_error" -> IF Good(v) THEN To(v) ELSE ToC(<<K(v), "err", Ap(a[1], v[3])>>, <<v[3]>>)
            [] op = "to_either" -> To(<<"either", v[2], v[3]>>)
            [] op = "to_result" -> To(<<"result", v[2], v[3]>>)
            [] op = "pipe" -> To(<<"pipe", v[2], v[3]>>)
            [] op = "context" -> To(<<"fin", v[2], v[3]>> \o (IF Good(v) THEN <<>> ELSE <<a[1]>>))
            [] op = "wrap" -> To(<<"fin", v[2], v[3]>>)
            [] op = "lift" -> To(<<K(v), "ok", a[1]>>)
            [] op = "handle" -> To(<<K(v), "err", a[1]>>)
            [] op = "side" -> See(v, Val(v[2])))
    [] K(v) = "pipe" ->
         (CASE op = "with_context" -> IF Good(v) THEN To(v) ELSE To(Append(v, a[1]))
            [] op = "with_lazy" -> IF Good(v) THEN To(v) ELSE ToC(Append(v, a[1]), <<a[1]>>)
            [] op = "map" -> IF Good(v) THEN ToC(<<"pipe", "ok", Ap(a[1], v[3])>>, <<v[3]>>) ELSE To(v)
            [] op = "and_then" -> IF Good(v) THEN ToC(<<"pipe">> \o Fal(a[1], v[3]), <<v[3]>>) ELSE To(v)
            [] op = "map_error" -> IF Good(v) THEN To(v) ELSE ToC(<<"pipe", "err", Ap(a[1], v[3])>> \o PCtx(v), <<v[3]>>)
            [] op = "recover" -> IF Good(v) THEN To(v)
                                 ELSE ToC(<<"pipe">> \o Fal(a[1], v[3]) \o (IF a[1][1] = "ok" THEN <<>> ELSE PCtx(v)), <<v[3]>>)
            [] op = "finish" -> To(<<"fin">> \o Tail(v)))
    [] K(v) = "fin" ->
         (CASE op = "unwrap" -> IF Good(v) THEN To(<<"result", "ok", v[3]>>) ELSE To(Comp(v[3], "", PCtx(v)))
            [] op = "flatten" -> To(<<"result", v[2], v[3]>>)
            [] op = "add_context" -> IF Good(v) THEN To(v) ELSE To(Append(v, a[1]))
            [] op = "side" -> See(v, Val(v[2])))
    [] K(v) = "app" ->
         (CASE op = "map" -> ToC(<<"app", Ap(a[1], v[2])>> \o From(v, 3), <<v[2]>>)
            [] op = "map_context" -> IF Len(v) = 2 THEN To(v) ELSE ToC(<<"app", v[2], Ap(a[1], v[3])>>, <<v[3]>>)
            [] op = "drop_context" -> To(<<"app", v[2]>>)
            [] op = "put_context" -> To(<<"app", v[2], a[1]>>)
            [] op = "message" -> See(v, Val(v[2]))
            [] op = "context" -> See(v, IF Len(v) = 2 THEN <<"none">> ELSE <<"some", v[3]>>)
            [] op = "text" -> See(v, Val(Quote(v[2]) \o (IF Len(v) = 2 THEN "" ELSE " (Context: " \o Quote(v[3]) \o ")")))
            [] op = "eq" -> See(v, Bool(Tail(v) = <<a[1]>> \o a[2])))
    [] K(v) = "ctx" ->
         (CASE op = "text" -> See(v, Val(v[2]))
            [] op = "eq" -> See(v, Bool(v[2] = a[1]))
            [] op = "attach" -> To(Comp(a[1], "", <<v[2]>>)))
=============================================================================
