-------------------------------- MODULE Data --------------------------------
(* Containers as values: what every functor, applicative, monad, alternative, *)
(* error-handling and folding operation of the containers means.              *)
(*                                                                            *)
(* A value is <<"ok", x>>, <<"err", e1, .., en>> or <<"list", x1, .., xn>>.   *)
(* Functions are free symbols: f of x is the string f(x), so that two results *)
(* are equal only if the same functions were applied to the same things.      *)
EXTENDS Naturals, Sequences, SequencesExt, TLC

Ap(f, x) == f \o "(" \o x \o ")"
Ap2(f, x, y) == f \o "(" \o x \o "," \o y \o ")"
Ap3(f, x, y, z) == f \o "(" \o x \o "," \o y \o "," \o z \o ")"

Ok(x) == <<"ok", x>>
Err(es) == <<"err">> \o es
L(xs) == <<"list">> \o xs
Val(x) == <<"val", x>>
Bool(b) == <<"val", IF b THEN "true" ELSE "false">>
Panic == <<"panic">>
IsOk(v) == v[1] = "ok"
Elems(v) == CASE v[1] = "ok" -> <<v[2]>> [] v[1] = "err" -> <<>> [] v[1] = "list" -> Tail(v)

\* ---- kinds
ListK == {"vec", "choice", "pvec", "ownlist"}
\* ownlist, ownres: types of a caller's own, which define the required operations and get the rest from the library
Own == {"ownlist", "ownres"}
NoPayload == {"option", "maybe"}          \* failing says nothing
IsList(K) == K \in ListK
\* the failure a kind can make from an error text
Fail(K, e) == IF K \in NoPayload THEN Err(<<>>) ELSE IF IsList(K) THEN L(<<>>) ELSE Err(<<e>>)
Pure(K, x) == IF IsList(K) THEN L(<<x>>) ELSE Ok(x)

\* ---- mapping, lifting, binding (operators over any payload)
MapSeq(F(_), xs) == [i \in DOMAIN xs |-> F(xs[i])]
MapV(F(_), v) == CASE v[1] = "ok" -> Ok(F(v[2])) [] v[1] = "err" -> v [] v[1] = "list" -> L(MapSeq(F, Tail(v)))
RECURSIVE FlatSeq(_)
FlatSeq(xss) == IF xss = <<>> THEN <<>> ELSE Tail(Head(xss)) \o FlatSeq(Tail(xss))
BindV(F(_), v) ==
  CASE v[1] = "ok" -> F(v[2])
    [] v[1] = "err" -> v
    [] v[1] = "list" -> L(FlatSeq(MapSeq(F, Tail(v))))

\* all pairs, the first operand varying slowest
Pairs(F(_, _), xs, ys) ==
  [n \in 1..(Len(xs) * Len(ys)) |-> F(xs[((n - 1) \div Len(ys)) + 1], ys[((n - 1) % Len(ys)) + 1])]
Lift2V(K, F(_, _), a, b) ==
  IF IsList(K) THEN L(Pairs(F, Tail(a), Tail(b)))
  ELSE IF IsOk(a) /\ IsOk(b) THEN Ok(F(a[2], b[2]))
  ELSE IF K = "validated" THEN Err((IF IsOk(a) THEN <<>> ELSE Tail(a)) \o (IF IsOk(b) THEN <<>> ELSE Tail(b)))
  ELSE IF IsOk(a) THEN b ELSE a
Tup(x, y) == <<x, y>>
Lift3V(K, F(_, _, _), a, b, c) ==
  Lift2V(K, LAMBDA p, z : F(p[1], p[2], z), Lift2V(K, Tup, a, b), c)
\* a choice applies every function to the primary value first, then to each alternative
ApplyV(K, G(_, _), fv, v) ==
  IF K = "choice" THEN Lift2V(K, LAMBDA x, f : G(f, x), v, fv) ELSE Lift2V(K, G, fv, v)

\* named effectful functions
Kl(K, k, x) ==
  CASE k = "s" -> Pure(K, Ap("s", x))
    [] k = "e" -> IF K = "validated" THEN Err(<<Ap("e1", x), Ap("e2", x)>>) ELSE Fail(K, Ap("e", x))
    [] k = "c" -> IF x = "a" THEN Fail(K, Ap("e", x)) ELSE Pure(K, Ap("c", x))
    [] k = "d" -> IF IsList(K) THEN L(<<Ap("d1", x), Ap("d2", x)>>) ELSE Pure(K, Ap("d", x))
Klei(K) == IF K = "id" THEN {"s"} ELSE IF IsList(K) THEN {"s", "e", "c", "d"} ELSE {"s", "e", "c"}
\* a step that may refuse (Result or Option, by the operation): does k refuse x ?
Refuses(k, x) == k = "e" \/ (k = "c" /\ x = "a")
Holds(p, x) == CASE p = "isA" -> x = "a" [] p = "notA" -> x # "a" [] p = "all" -> TRUE [] p = "none" -> FALSE
Preds == {"isA", "notA", "all", "none"}

EmptyAlt(K) == CASE K \in NoPayload -> Err(<<>>) [] IsList(K) -> L(<<>>) [] OTHER -> Err(<<"">>)
MZero(K) == IF K = "validated" THEN Err(<<>>) ELSE EmptyAlt(K)
IsEmptyV(v) == v[1] = "err" \/ v = <<"list">>

SelectV(p, xs) == SelectSeq(xs, LAMBDA x : Holds(p, x))
RECURSIVE FoldL(_, _)
FoldL(acc, xs) == IF xs = <<>> THEN acc ELSE FoldL("(" \o acc \o "<" \o Head(xs) \o ")", Tail(xs))
RECURSIVE FoldR(_, _)
FoldR(acc, xs) == IF xs = <<>> THEN acc ELSE "(" \o Head(xs) \o ">" \o FoldR(acc, Tail(xs)) \o ")"
RECURSIVE Cat(_)
Cat(xs) == IF xs = <<>> THEN "" ELSE Head(xs) \o Cat(Tail(xs))
RECURSIVE Reduce(_, _)
Reduce(acc, xs) == IF xs = <<>> THEN acc ELSE Reduce("(" \o acc \o "." \o Head(xs) \o ")", Tail(xs))
RECURSIVE Sum(_)
Sum(xs) == IF xs = <<>> THEN 0 ELSE Head(xs) + Sum(Tail(xs))
RECURSIVE Prod(_)
Prod(xs) == IF xs = <<>> THEN 1 ELSE Head(xs) * Prod(Tail(xs))
Ext(xs, Better(_, _)) == CHOOSE m \in {xs[i] : i \in DOMAIN xs} : \A i \in DOMAIN xs : Better(m, xs[i])
Opt(xs, v) == IF xs = <<>> THEN <<"none">> ELSE <<"some", v>>
FirstOpt(xs) == IF xs = <<>> THEN <<"none">> ELSE <<"some", Head(xs)>>

\* ---- the operations: signature and result -----------------------------
\* sorts: v container, w another container, f function, k effectful function, p predicate, x payload,
\*        F container of functions, V container of containers, b boolean, n container of numbers, m number
Sig(op) ==
  CASE op = "fmap" -> <<"v", "f">> [] op = "replace" -> <<"v", "x">> [] op = "void" -> <<"v">>
    [] op = "try_map_or" -> <<"v", "x", "k">> [] op = "try_map_or_else" -> <<"v", "f", "k">>
    [] op = "filter_map" -> <<"v", "k">>
    [] op = "pure" -> <<"x">> [] op = "pair_with" -> <<"x", "x">> [] op = "combine_with" -> <<"x", "x", "f">>
    [] op = "apply" -> <<"v", "F">> [] op = "lift2" -> <<"v", "w", "f">> [] op = "lift3" -> <<"v", "w", "w", "f">>
    [] op = "seqr" -> <<"v", "w">> [] op = "seql" -> <<"v", "w">>
    [] op = "bind" -> <<"v", "k">> [] op = "join" -> <<"V">> [] op = "map_and_pure" -> <<"v", "f">>
    [] op = "try_bind" -> <<"v", "x", "k">>
    [] op = "value" -> <<"v">>
    [] op = "first" -> <<"v", "f">> [] op = "second" -> <<"v", "f">> [] op = "bimap" -> <<"v", "f", "f">>
    [] op = "extract" -> <<"v">> [] op = "duplicate" -> <<"v">> [] op = "extend" -> <<"v", "f">>
    [] op = "alt" -> <<"v", "w">> [] op = "mplus" -> <<"v", "w">> [] op = "empty_alt" -> <<>> [] op = "mzero" -> <<>>
    [] op = "guard" -> <<"b">> [] op = "many" -> <<"v">>
    [] op = "throw" -> <<"x">> [] op = "catch" -> <<"v", "k">> [] op = "map_error_to" -> <<"v", "f">>
    [] op \in {"fold_left", "fold_right"} -> <<"v", "x">>
    [] op \in {"fold_map"} -> <<"v", "f">> [] op \in {"fold_monoid", "length", "is_empty", "to_vec", "reduce"} -> <<"v">>
    [] op \in {"find", "all", "any"} -> <<"v", "p">> [] op = "contains" -> <<"v", "x">>
    [] op = "fold_option" -> <<"v", "k">>
    [] op = "nat" -> <<"v">>
    [] op = "contramap" -> <<"f", "x">> [] op = "contramap_const" -> <<"x", "x">> [] op = "contra_compose" -> <<"x">>
    [] op \in {"is_sorted", "sum_values", "product_values", "maximum", "minimum"} -> <<"n">>

Functors == {"option", "result", "either", "maybe", "id", "validated", "vec", "choice", "pvec"} \cup Own
Applicatives == Functors \ {"pvec"}
Monads == Applicatives \ {"vec"}
LawOps(K) ==
     (IF K \in Functors THEN {"fmap", "replace", "void", "value"} \ (IF K = "vec" THEN {"value"} ELSE {}) ELSE {})
  \cup (IF K \in {"option", "result", "vec"} \cup Own THEN {"try_map_or", "try_map_or_else"} ELSE {})
  \cup (IF K \in {"option", "result", "vec"} THEN {"filter_map"} ELSE {})
  \cup (IF K \notin {"pvec", "show"} THEN {"pure", "pair_with", "combine_with"} ELSE {})
  \cup (IF K \in Applicatives THEN {"apply", "lift2", "lift3", "seqr", "seql"} ELSE {})
  \cup (IF K \in Monads THEN {"bind", "join", "map_and_pure", "try_bind"} ELSE {})
  \cup (IF K \in {"either", "validated"} THEN {"first", "second", "bimap"} ELSE {})
AltOps(K) ==
     (IF K \in {"option", "either", "maybe", "validated", "vec", "choice"} THEN {"alt", "empty_alt", "guard", "many"} ELSE {})
  \cup (IF K \in {"option", "result", "either", "maybe", "validated", "choice"} THEN {"mplus", "mzero"} ELSE {})
  \cup (IF K \in {"option", "result"} THEN {"throw", "catch", "map_error_to"} ELSE {})
FoldOps(K) ==
  IF K \in {"either", "maybe", "box", "show"} THEN {}
  ELSE {"fold_left", "fold_right", "fold_map", "fold_monoid", "length", "is_empty", "to_vec", "reduce", "find",
        "all", "any", "contains", "fold_option", "is_sorted", "sum_values", "product_values", "maximum", "minimum"}
\* what the library provides on top of a caller's own type
OwnOps(K) ==
  CASE K \in {"option", "result", "vec"} -> {"nat"}
    [] K = "show" -> {"contramap", "contramap_const", "contra_compose"}
    [] K = "box" -> LawOps(K)
    [] OTHER -> LawOps(K) \cup FoldOps(K)
ComonadOps(K) == IF K = "id" THEN {"extract", "duplicate", "extend"} ELSE {}

\* errors of a value, mapped
MapErr(f, v) == IF v[1] = "err" THEN Err(MapSeq(LAMBDA e : Ap(f, e), Tail(v))) ELSE v

Res(K, op, a) ==
  CASE op = "fmap" \/ op = "map_and_pure" -> MapV(LAMBDA x : Ap(a[2], x), a[1])
    [] op = "replace" -> MapV(LAMBDA x : a[2], a[1])
    [] op = "void" -> MapV(LAMBDA x : "()", a[1])
    [] op = "try_map_or" -> MapV(LAMBDA x : IF Refuses(a[3], x) THEN a[2] ELSE Ap(a[3], x), a[1])
    [] op = "try_map_or_else" -> MapV(LAMBDA x : IF Refuses(a[3], x) THEN Ap(a[2], Ap("e", x)) ELSE Ap(a[3], x), a[1])
    [] op = "filter_map" ->
         IF K = "vec" THEN L(MapSeq(LAMBDA x : Ap(a[2], x), SelectSeq(Tail(a[1]), LAMBDA x : ~Refuses(a[2], x))))
         ELSE IF ~IsOk(a[1]) THEN a[1]
         ELSE IF Refuses(a[2], a[1][2]) THEN EmptyAlt(K) ELSE Ok(Ap(a[2], a[1][2]))
    [] op = "pure" -> Pure(K, a[1])
    [] op = "pair_with" -> Pure(K, "<" \o a[1] \o "," \o a[2] \o ">")
    [] op = "combine_with" -> Pure(K, Ap2(a[3], a[1], a[2]))
    [] op = "apply" -> ApplyV(K, Ap, a[2], a[1])
    [] op = "lift2" -> Lift2V(K, LAMBDA x, y : Ap2(a[3], x, y), a[1], a[2])
    [] op = "lift3" -> Lift3V(K, LAMBDA x, y, z : Ap3(a[4], x, y, z), a[1], a[2], a[3])
    [] op = "seqr" -> Lift2V(K, LAMBDA x, y : y, a[1], a[2])
    [] op = "seql" -> Lift2V(K, LAMBDA x, y : x, a[1], a[2])
    [] op = "bind" -> BindV(LAMBDA x : Kl(K, a[2], x), a[1])
    [] op = "join" -> BindV(LAMBDA x : x, a[1])
    [] op = "try_bind" -> BindV(LAMBDA x : IF Refuses(a[3], x) THEN Pure(K, a[2]) ELSE Kl(K, "s", x), a[1])
    [] op = "value" -> IF Elems(a[1]) = <<>> THEN Panic ELSE Val(Elems(a[1])[1])
    [] op = "first" -> MapV(LAMBDA x : Ap(a[2], x), a[1])
    [] op = "second" -> MapErr(a[2], a[1])
    [] op = "bimap" -> MapErr(a[3], MapV(LAMBDA x : Ap(a[2], x), a[1]))
    [] op = "extract" -> Val(a[1][2])
    [] op = "duplicate" -> a[1]
    [] op = "extend" -> Ok(Ap(a[2], a[1][2]))
    [] op = "alt" -> IF K = "choice" THEN L(Tail(a[1]) \o Tail(a[2])) ELSE IF IsEmptyV(a[1]) THEN a[2] ELSE a[1]
    [] op = "mplus" ->
         IF K = "choice" THEN L(Tail(a[1]) \o Tail(a[2]))
         ELSE IF IsOk(a[1]) THEN a[1] ELSE IF IsOk(a[2]) THEN a[2]
         ELSE IF K = "validated" THEN Err(Tail(a[1]) \o Tail(a[2]))
         ELSE IF K = "either" THEN a[1] ELSE a[2]
    [] op = "nat" -> a[1]
    [] op = "contramap" -> Val(Ap("p", Ap(a[1], a[2])))
    [] op = "contramap_const" -> Val(Ap("p", a[1]))
    [] op = "contra_compose" -> Val(Ap("p", Ap("into", a[1])))
    [] op = "empty_alt" -> EmptyAlt(K)
    [] op = "mzero" -> MZero(K)
    [] op = "guard" -> IF a[1] THEN Pure(K, "()") ELSE EmptyAlt(K)
    [] op = "many" ->
         IF K = "vec" THEN (IF a[1] = <<"list">> THEN a[1] ELSE L(<<a[1]>>))
         ELSE IF IsEmptyV(a[1]) THEN EmptyAlt(K)
         ELSE Pure(K, L(<<Elems(a[1])[1]>>))
    [] op = "throw" -> Fail(K, a[1])
    [] op = "catch" -> IF IsOk(a[1]) THEN a[1] ELSE Kl(K, a[2], IF K = "option" THEN "()" ELSE a[1][2])
    [] op = "map_error_to" -> IF IsOk(a[1]) THEN a[1] ELSE Err(<<Ap(a[2], IF K = "option" THEN "()" ELSE a[1][2])>>)
    [] op = "fold_left" -> Val(FoldL(a[2], Elems(a[1])))
    [] op = "fold_right" -> Val(FoldR(a[2], Elems(a[1])))
    [] op = "fold_map" -> Val(Cat(MapSeq(LAMBDA x : Ap(a[2], x), Elems(a[1]))))
    [] op = "fold_monoid" -> Val(Cat(Elems(a[1])))
    [] op = "length" -> Val(ToString(Len(Elems(a[1]))))
    [] op = "is_empty" -> Bool(Elems(a[1]) = <<>>)
    [] op = "to_vec" -> L(Elems(a[1]))
    [] op = "reduce" -> IF Elems(a[1]) = <<>> THEN <<"none">> ELSE <<"some", Reduce(Head(Elems(a[1])), Tail(Elems(a[1])))>>
    [] op = "find" -> FirstOpt(SelectV(a[2], Elems(a[1])))
    [] op = "all" -> Bool(\A i \in DOMAIN Elems(a[1]) : Holds(a[2], Elems(a[1])[i]))
    [] op = "any" -> Bool(\E i \in DOMAIN Elems(a[1]) : Holds(a[2], Elems(a[1])[i]))
    [] op = "contains" -> Bool(\E i \in DOMAIN Elems(a[1]) : Elems(a[1])[i] = a[2])
    [] op = "fold_option" ->
         IF \E i \in DOMAIN Elems(a[1]) : Refuses(a[2], Elems(a[1])[i]) THEN <<"none">>
         ELSE <<"some", Cat(MapSeq(LAMBDA x : Ap(a[2], x), Elems(a[1])))>>
    [] op = "is_sorted" -> Bool(\A i, j \in DOMAIN Elems(a[1]) : i <= j => Elems(a[1])[i] <= Elems(a[1])[j])
    [] op = "sum_values" -> Val(ToString(Sum(Elems(a[1]))))
    [] op = "product_values" -> Val(ToString(Prod(Elems(a[1]))))
    [] op = "maximum" -> LET xs == Elems(a[1]) IN Opt(xs, ToString(Ext(xs, LAMBDA m, y : m >= y)))
    [] op = "minimum" -> LET xs == Elems(a[1]) IN Opt(xs, ToString(Ext(xs, LAMBDA m, y : m <= y)))

\* the elements before and including the first one that decides
UpTo(D(_), xs) == LET ds == {i \in DOMAIN xs : D(xs[i])} IN
                  IF ds = {} THEN xs ELSE SubSeq(xs, 1, CHOOSE i \in ds : \A j \in ds : i <= j)
Asked(xs) == [i \in DOMAIN xs |-> ToString(i) \o "?" \o xs[i]]

\* ---- how often the closures are called, on what: a bag, where the operation promises it
Called(K, op, a) ==
  CASE op \in {"fmap", "bimap", "first", "fold_map"} -> MapSeq(LAMBDA x : Ap(a[2], x), Elems(a[1]))
         \o (IF op = "bimap" /\ a[1][1] = "err" THEN MapSeq(LAMBDA e : Ap(a[3], e), Tail(a[1])) ELSE <<>>)
    [] op \in {"fold_left", "reduce", "fold_right", "find", "any", "all", "fold_option"} ->
         LET xs == Elems(a[1]) IN
         Asked(CASE op = "reduce" -> IF xs = <<>> THEN xs ELSE Tail(xs)
                 [] op = "fold_right" -> [i \in DOMAIN xs |-> xs[Len(xs) + 1 - i]]
                 [] op \in {"find", "any"} -> UpTo(LAMBDA x : Holds(a[2], x), xs)
                 [] op = "all" -> UpTo(LAMBDA x : ~Holds(a[2], x), xs)
                 [] op = "fold_option" -> UpTo(LAMBDA x : Refuses(a[2], x), xs)
                 [] OTHER -> xs)
    [] op = "second" -> IF a[1][1] = "err" THEN MapSeq(LAMBDA e : Ap(a[2], e), Tail(a[1])) ELSE <<>>
    [] op = "bind" -> MapSeq(LAMBDA x : Ap(a[2], x), Elems(a[1]))
    [] op = "catch" -> IF IsOk(a[1]) THEN <<>> ELSE <<Ap(a[2], IF K = "option" THEN "()" ELSE a[1][2])>>
    [] op = "map_error_to" -> IF IsOk(a[1]) THEN <<>> ELSE <<Ap(a[2], IF K = "option" THEN "()" ELSE a[1][2])>>
    [] OTHER -> <<"?">>

\* ---- laws, on a value v of kind K ----------------------------------------
Laws(K, v, others) ==
  LET P(x) == Pure(K, x) IN
  /\ MapV(LAMBDA x : x, v) = v
  /\ MapV(LAMBDA x : Ap("f", x), MapV(LAMBDA x : Ap("g", x), v)) = MapV(LAMBDA x : Ap("f", Ap("g", x)), v)
  /\ K \in Applicatives =>
     /\ ApplyV(K, Ap, P("f"), v) = MapV(LAMBDA x : Ap("f", x), v)
     /\ ApplyV(K, Ap, P("f"), P("y")) = P(Ap("f", "y"))
     /\ ApplyV(K, LAMBDA f, x : Ap2("at", f, x), v, P("y")) = MapV(LAMBDA f : Ap2("at", f, "y"), v)
     /\ \A u \in others :
          LET LHS == ApplyV(K, LAMBDA fg, x : Ap(fg[1], Ap(fg[2], x)), Lift2V(K, Tup, v, u), P("y")) IN
          K # "choice" => \A w \in others :
              ApplyV(K, LAMBDA fg, x : Ap(fg[1], Ap(fg[2], x)), Lift2V(K, Tup, v, u), w)
              = ApplyV(K, Ap, v, ApplyV(K, Ap, u, w))
     /\ \A u \in others : Lift2V(K, Tup, v, u) = BindV(LAMBDA x : MapV(LAMBDA y : <<x, y>>, u), v)
                          \/ (K = "validated" /\ ~IsOk(v))
  /\ K \in Monads =>
     /\ BindV(P, v) = v
     /\ \A k \in Klei(K) : BindV(LAMBDA x : Kl(K, k, x), P("z")) = Kl(K, k, "z")
     /\ \A k, m \in Klei(K) :
          BindV(LAMBDA x : Kl(K, m, x), BindV(LAMBDA x : Kl(K, k, x), v))
          = BindV(LAMBDA x : BindV(LAMBDA y : Kl(K, m, y), Kl(K, k, x)), v)
     /\ BindV(LAMBDA x : x, MapV(P, v)) = v
     /\ BindV(LAMBDA x : x, P(v)) = v
  /\ \A op \in {"alt", "mplus"} \cap AltOps(K) :
     /\ \A u, w \in others : Res(K, op, <<Res(K, op, <<v, u>>), w>>) = Res(K, op, <<v, Res(K, op, <<u, w>>)>>)
     /\ LET z == IF op = "alt" THEN EmptyAlt(K) ELSE MZero(K) IN
        /\ op = "alt" \/ K \in {"option", "maybe", "validated", "choice"} => Res(K, op, <<z, v>>) = v
        /\ (K \in {"option", "maybe", "vec", "choice"} \/ (op = "mplus" /\ K = "validated") \/ IsOk(v)) => Res(K, op, <<v, z>>) = v
  /\ K = "id" => /\ Res(K, "extend", <<Res(K, "extend", <<v, "g">>), "f">>) = Ok(Ap("f", Ap("g", v[2])))
                  /\ Res(K, "extract", <<Res(K, "extend", <<v, "f">>)>>) = Val(Ap("f", v[2]))
=============================================================================
