--------------------------------- MODULE ErrMC ---------------------------------
(* Every path of error handling up to Depth from every start of Group.          *)
EXTENDS Err, Json, CSV, IOUtils
CONSTANTS Depth, Group
File == IOEnv.VK_OUT
\* from: where the path started; path: the operations since (a real value may hide more than it shows, so the harness walks it)
VARIABLES v, from, path, past
vars == <<v, from, path, past>>
Many == <<"p", "q -> r", "p", "", "s", "t">>
Pool(sort) ==
  CASE sort = "x" -> {"a"} [] sort = "e" -> {"x", ""} [] sort = "c" -> {"p", "", "q -> r"} [] sort = "m" -> {<<>>, <<"p">>, <<"q", "p">>, Many}
    [] sort = "n" -> {"", "0", "7", "4294967295"} [] sort = "f" -> {"f", "g"} [] sort = "k" -> {"ok", "err"} \X {"f", "g"}
    [] sort = "i" -> {0, 1, 5} [] sort = "o" -> {<<>>, <<"p">>}
RECURSIVE ArgsOf(_)
ArgsOf(sig) == IF sig = "" THEN {<<>>} ELSE {<<x>> \o as : x \in Pool(SubSeq(sig, 1, 1)), as \in ArgsOf(SubSeq(sig, 2, Len(sig)))}
Args(op, sig) == {a \in ArgsOf(sig) : op \in {"set_code", "wrap_code"} => a[1] # ""}
Sides == {"ok", "err"}
Starts ==
  IF Group = "error"
  THEN {<<"raw", e>> : e \in {"x", ""}} \cup {<<"ctx", c>> : c \in {"p", ""}}
       \cup {Comp(e, n, cs) : e \in {"x"}, n \in {"", "7"}, cs \in {<<>>, <<"p", "q", "p">>, Many}}
       \cup {<<"app", "x">>, <<"app", "x", "p">>}
  ELSE {<<k, s, "a">> : k \in {"result", "either", "pipe"}, s \in Sides} \cup {<<"pipe", "err", "x">> \o Many}
\* the two groups meet in the finished result; each explores its own side
Kept == IF Group = "error" THEN {"raw", "comp", "ctx", "app"} ELSE {"result", "either", "pipe", "fin"}
Emit(op, a, o) == CSVWrite("%1$s", <<ToJson([s |-> from, p |-> path, v |-> v, op |-> op, a |-> a, r |-> o.r, n |-> o.n, c |-> o.c])>>, File)
Init == v \in Starts /\ from = v /\ path = <<>> /\ past = <<>>
Next == /\ Len(path) < Depth /\ K(v) \in Kept /\ UNCHANGED from
        /\ \E op \in Ops(K(v)) : \E a \in Args(op[1], op[2]) :
             LET o == Do(v, op[1], a) IN
             /\ Emit(op[1], a, o)
             /\ IF o.r = <<"to">> THEN v' = o.n /\ past' = v /\ path' = Append(path, <<op[1], a>>)
                ELSE UNCHANGED <<v, past, path>>
Spec == Init /\ [][Next]_vars

Typed == K(v) \in Kinds
IsPrefixOf(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
\* a composable error never loses or reorders a context
KeepsContexts == (past # <<>> /\ K(v) = "comp" /\ K(past) = "comp") => IsPrefixOf(Ctxs(past), Ctxs(v))
\* a pipeline's failure keeps its contexts while it stays a failure, a success has none
PipeContexts == /\ (past # <<>> /\ K(v) = "pipe" /\ K(past) = "pipe" /\ ~Good(v) /\ ~Good(past)) => IsPrefixOf(PCtx(past), PCtx(v))
                /\ (K(v) \in {"pipe", "fin"} /\ Good(v)) => Len(v) = 3
                /\ (past # <<>> /\ K(past) = "pipe" /\ Good(past) /\ ~Good(v)) => Len(v) = 3
\* however contexts are added the error is the same
FormsAgree == K(v) = "comp" => \A c \in {"p"} :
                /\ Do(v, "with_context", <<c>>).n = Do(v, "with_contexts", <<<<c>>>>).n
                /\ Do(Do(v, "with_context", <<c>>).n, "with_context", <<"q">>).n = Do(v, "with_contexts", <<<<c, "q">>>>).n
                /\ Do(Do(v, "with_context", <<c>>).n, "map_core", <<"f">>).n = Do(Do(v, "map_core", <<"f">>).n, "with_context", <<c>>).n
                /\ Do(Do(v, "with_context", <<c>>).n, "set_code", <<"7">>).n = Do(Do(v, "set_code", <<"7">>).n, "with_context", <<c>>).n
\* closures run only on the side they name
OneSide == \A op \in Ops(K(v)) : \A a \in Args(op[1], op[2]) :
             LET c == Do(v, op[1], a).c IN
             K(v) \in {"pipe", "result", "either"} =>
               /\ (op[1] \in {"map", "and_then"} => (c = <<>> <=> ~Good(v)))
               /\ (op[1] \in {"map_error", "recover", "with_lazy"} => (c = <<>> <=> Good(v)))
               /\ Len(c) <= 1
\* finishing a pipeline and dropping the contexts is the plain result
Erases == K(v) = "pipe" => Do(Do(v, "finish", <<>>).n, "flatten", <<>>).n = <<"result", v[2], v[3]>>
=============================================================================
