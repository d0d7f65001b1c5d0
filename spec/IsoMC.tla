--------------------------------- MODULE IsoMC ---------------------------------
(* Every expression of isomorphisms up to Size and every operation on it.         *)
EXTENDS Iso, Json, CSV, IOUtils, FiniteSets
CONSTANTS Size, MaxLen, Depth
File == IOEnv.VK_OUT
VARIABLES v, d
vars == <<v, d>>
Base == {<<"rev">>, <<"rot">>, <<"tag", "k">>}
RECURSIVE Exprs(_)
Exprs(n) == IF n <= 1 THEN Base
            ELSE Base \cup {<<"inv", e>> : e \in Exprs(n - 1)} \cup UNION {{<<"comp", e, f>> : e \in Exprs(i), f \in Exprs(n - 1 - i)} : i \in 1..(n - 2)}
Es == Exprs(Size)
Small == Base \cup {<<"inv", <<"tag", "k">>>>, <<"comp", <<"rev">>, <<"rot">>>>}
Seqs(n) == UNION {[1..i -> {"a", "k"}] : i \in 0..n}
Ys == {<<>>, <<"a", "b">>, <<"b", "k">>, <<"k", "k", "a">>}
Keys == UNION {[1..i -> {"a", "k"}] : i \in 1..3}
Pool(sort) == CASE sort = "e" -> Es [] sort = "y" -> Ys [] sort = "f" -> {"push", "keep", "clear"} [] sort = "i" -> {1, 2} [] sort = "b" -> {"z"}
                [] sort = "F" -> {"f"} [] sort = "P" -> Keys [] sort = "s" -> {"ok", "err"} [] sort = "m" -> {<<"x">>, <<"x", "y">>}
RECURSIVE ArgsOf(_)
ArgsOf(sig) == IF sig = "" THEN {<<>>} ELSE {<<x>> \o as : x \in Pool(SubSeq(sig, 1, 1)), as \in ArgsOf(SubSeq(sig, 2, Len(sig)))}
Args(op, sig) == IF SubSeq(sig, 1, IF Len(sig) < 2 THEN Len(sig) ELSE 2) = "ee"
                 THEN {<<e, e>> \o as : e \in Es, as \in ArgsOf(SubSeq(sig, 3, Len(sig)))} \cup {<<e, f>> \o as : e \in Small, f \in Small, as \in ArgsOf(SubSeq(sig, 3, Len(sig)))}
                 ELSE ArgsOf(sig)
Starts == {U(xs) : xs \in Seqs(MaxLen)}
  \cup {<<k, "ok", "a">> : k \in {"result", "either", "validated"}} \cup {<<k, "err", "x">> : k \in {"result", "either", "validated"}}
  \cup {<<"validated", "err", "x", "y">>}
Emit(op, a, o) == CSVWrite("%1$s", <<ToJson([v |-> v, op |-> op, a |-> a, r |-> o.r, n |-> o.n, c |-> o.c])>>, File)
Init == v \in Starts /\ d = 0
Next == /\ d < Depth /\ d' = d + 1
        /\ \E op \in Ops(v) : \E a \in Args(op[1], op[2]) :
             LET o == Do(v, op[1], a) IN Emit(op[1], a, o) /\ v' = o.n
Spec == Init /\ [][Next]_vars

Typed == K(v) \in Kinds
\* an isomorphism inverts; its inverse inverts it; composition is associative; forward undoes tags everywhere
Inverts == K(v) = "u" /\ d = 0 => \A e \in Es :
  /\ Total(e) => Bwd(e, Fwd(e, Xs(v))) = Xs(v) /\ Fwd(e, Bwd(e, Xs(v))) = Xs(v)
  /\ Fwd(<<"inv", <<"inv", e>>>>, Xs(v)) = Fwd(e, Xs(v))
  /\ \A f \in Small : Fwd(<<"inv", <<"comp", e, f>>>>, Xs(v)) = Fwd(<<"comp", <<"inv", f>>, <<"inv", e>>>>, Xs(v))
  /\ \A f, g \in Small : Fwd(<<"comp", <<"comp", e, f>>, g>>, Xs(v)) = Fwd(<<"comp", e, <<"comp", f, g>>>>, Xs(v))
                         /\ Bwd(<<"comp", <<"comp", e, f>>, g>>, Xs(v)) = Bwd(<<"comp", e, <<"comp", f, g>>>>, Xs(v))
\* optics from isomorphisms keep their laws
IsoOptics == K(v) = "u" /\ d = 0 =>
  /\ \A e \in Es : Total(e) =>
       /\ Do(v, "lens_modify", <<e, "keep">>).n = v
       /\ Do(Do(v, "lens_get", <<e>>).n, "lens_set", <<e>>).n = v
       /\ \A i \in {1, 2} : LET w == Do(v, "focus_set", <<e, e, i, "z">>).n IN
            /\ i <= Len(Xs(v)) => Do(w, "focus_get", <<e, e, i>>).r = <<"pair", "z", Xs(w)>>
            /\ Do(w, "focus_set", <<e, e, i, Elem(Fwd(e, Xs(v)), i)>>).n = v
  /\ \A ks \in Keys : LET p == Strip(ks, Xs(v)) IN
       /\ Strip(ks, Xs(Do(v, "review", <<ks>>).n)) = <<"some">> \o Xs(v)
       /\ p[1] = "some" => Do(U(Tail(p)), "review", <<ks>>).n = v
=============================================================================
