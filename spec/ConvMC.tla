-------------------------------- MODULE ConvMC --------------------------------
(* Every path of conversions and accesses up to Depth from every kind.         *)
EXTENDS Conv, Json, CSV, IOUtils
CONSTANTS Depth
File == IOEnv.VK_OUT
VARIABLES v, d
vars == <<v, d>>
Pool(sort) ==
  CASE sort = "x" -> {"a", "c"} [] sort = "e" -> {"x"} [] sort = "f" -> {"f", "g"}
    [] sort = "p" -> {"isA", "notA", "all", "none"} [] sort = "b" -> BOOLEAN
RECURSIVE ArgsOf(_)
ArgsOf(sig) == IF sig = "" THEN {<<>>} ELSE {<<x>> \o as : x \in Pool(SubSeq(sig, 1, 1)), as \in ArgsOf(SubSeq(sig, 2, Len(sig)))}
Long == <<"a", "b", "c", "d", "a", "b", "c", "e", "f", "a">>
Starts ==
       {<<k>> : k \in {"option", "maybe", "first", "last", "vec", "choice", "pvec"}}
  \cup {<<k, x>> : k \in {"option", "maybe", "first", "last", "id", "sum", "product", "min", "max", "writer"}, x \in {"a", "b", ""}}
  \cup {<<k>> \o xs : k \in {"vec", "choice", "pvec"}, xs \in {<<"a">>, <<"b", "a">>, <<"a", "b", "a">>, Long}}
  \cup {<<"writer", "b">> \o xs : xs \in {<<"a">>, Long}}
  \cup {<<k, "ok", x>> : k \in {"result", "validated", "cresult"}, x \in {"a", "b"}} \cup {<<"either", "right", x>> : x \in {"a", "b"}}
  \cup {<<k, "err", e>> : k \in {"result", "validated", "cresult"}, e \in {"x", "y"}} \cup {<<"either", "left", e>> : e \in {"x", "y"}}
  \cup {<<"validated", "err">> \o xs : xs \in {<<>>, <<"x", "y">>, <<"y", "x", "y">>, Long}}
Emit(op, a, o) == CSVWrite("%1$s", <<ToJson([v |-> v, op |-> op, a |-> a, r |-> o.r, n |-> o.n, c |-> o.c])>>, File)
Init == v \in Starts /\ d = 0
Next == /\ d < Depth /\ d' = d + 1
        /\ \E op \in Ops(K(v)) : \E a \in ArgsOf(op[2]) :
             LET o == Do(v, op[1], a) IN Emit(op[1], a, o) /\ v' = o.n
Spec == Init /\ [][Next]_vars

Typed == K(v) \in Kinds
\* there and back, wherever the target can hold the value
Back(path) ==
  LET RECURSIVE Go(_, _)
      Go(w, p) == IF p = <<>> THEN w ELSE Go(Do(w, Head(p)[1], Head(p)[2]).n, Tail(p)) IN Go(v, path)
RoundTrips ==
  /\ K(v) = "option" => /\ Back(<<<<"to_maybe", <<>>>>, <<"to_option", <<>>>>>>) = v
                        /\ Back(<<<<"to_first", <<>>>>, <<"to_option", <<>>>>>>) = v /\ Back(<<<<"to_last", <<>>>>, <<"to_option", <<>>>>>>) = v
                        /\ Back(<<<<"to_validated", <<"x">>>>, <<"to_option", <<>>>>>>) = v
  /\ K(v) = "maybe" => /\ Back(<<<<"to_option", <<>>>>, <<"to_maybe", <<>>>>>>) = v /\ Back(<<<<"to_vec", <<>>>>, <<"to_maybe", <<>>>>>>) = v
                       /\ Back(<<<<"to_result", <<"x">>>>, <<"to_maybe", <<>>>>>>) = v
  /\ K(v) = "result" => /\ Back(<<<<"to_either", <<>>>>, <<"to_result", <<>>>>>>) = v /\ Back(<<<<"to_validated", <<>>>>, <<"to_result", <<>>>>>>) = v
                        /\ Back(<<<<"to_cresult", <<>>>>, <<"to_result", <<>>>>>>) = v
  /\ K(v) = "either" => /\ Back(<<<<"to_result", <<>>>>, <<"to_either", <<>>>>>>) = v /\ Back(<<<<"to_validated", <<>>>>, <<"to_either", <<>>>>>>) = v
  /\ K(v) = "validated" /\ Len(v) = 3 => Back(<<<<"to_either", <<>>>>, <<"to_validated", <<>>>>>>) = v
  /\ K(v) = "vec" => /\ Back(<<<<"to_choice", <<>>>>, <<"to_vec", <<>>>>>>) = v /\ Back(<<<<"to_pvec", <<>>>>, <<"to_vec", <<>>>>>>) = v
                     /\ Back(<<<<"to_writer", <<"a">>>>, <<"to_vec", <<>>>>>>) = v
                     /\ Has(v) => Back(<<<<"collect_errors", <<>>>>, <<"to_errors", <<>>>>>>) = v
  /\ K(v) = "choice" => Back(<<<<"to_pvec", <<>>>>, <<"to_choice", <<>>>>>>) = v
  /\ K(v) = "id" => \A w \in {"to_sum", "to_product", "to_min", "to_max"} : Back(<<<<w, <<>>>>, <<"to_id", <<>>>>>>) = v
\* reading changes nothing
ReadOnly == \A op \in Ops(K(v)) : \A a \in ArgsOf(op[2]) : Do(v, op[1], a).r # <<"to">> => Do(v, op[1], a).n = v
=============================================================================
