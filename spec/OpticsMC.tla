------------------------------- MODULE OpticsMC -------------------------------
(* Every path of optic operations up to Depth.                                   *)
EXTENDS Optics, Json, CSV, IOUtils
CONSTANTS Depth
File == IOEnv.VK_OUT
VARIABLES v, d
vars == <<v, d>>
Vals == {<<"a", "0">>, <<"b", "0">>, <<"a", "1">>}
Foci(w) == [1..w -> Vals]
Optic(sort) == IF sort = "L" THEN Lenses ELSE Prisms
Args(sig) ==
  IF sig = "" THEN {<<>>}
  ELSE IF Len(sig) = 1 THEN {<<o>> : o \in Optic(sig)}
  ELSE IF SubSeq(sig, 2, 2) = "f" THEN {<<o, f>> : o \in Optic(SubSeq(sig, 1, 1)), f \in {"f", "keep", "retag"}}
  ELSE UNION {{<<o, x>> : x \in Foci(Width(o))} : o \in Optic(SubSeq(sig, 1, 1))}
Starts == {<<"rec", <<"a", "0">>, <<"b", "0">>, <<"a", "1">>, <<"b", "1">>>>, <<"rec", <<"a", "0">>, <<"a", "0">>, <<"a", "0">>, <<"a", "0">>>>,
           <<"circle", <<"a", "0">>>>, <<"rect", <<"a", "0">>, <<"b", "1">>>>, <<"blank">>, <<"boxed", <<"circle", <<"b", "0">>>>>>, <<"boxed", <<"blank">>>>,
           <<"boxed", <<"boxed", <<"circle", <<"a", "0">>>>>>>>}
Emit(op, a, o) == CSVWrite("%1$s", <<ToJson([v |-> v, op |-> op, a |-> a, r |-> o.r, n |-> o.n, c |-> o.c])>>, File)
Init == v \in Starts /\ d = 0
Next == /\ d < Depth /\ d' = d + 1
        /\ \E op \in Ops(v) : \E a \in Args(op[2]) :
             LET o == Do(v, op[1], a) IN Emit(op[1], a, o) /\ v' = o.n
Spec == Init /\ [][Next]_vars

Typed == K(v) \in Shapes \cup {"rec"}
After(op, a) == Do(v, op, a).n
\* setting what is there changes nothing; getting returns what was set; the last set wins; nothing else moves
LensLaws == K(v) = "rec" => \A L \in Lenses : \A x \in Foci(Width(L)) :
  /\ After("set", <<L, Get(L, v)>>) = v /\ After("set_always", <<L, Get(L, v)>>) = v
  /\ Equal(Get(L, After("set", <<L, x>>)), x) /\ Get(L, After("set_always", <<L, x>>)) = x
  /\ \A y \in Foci(Width(L)) : Do(After("set_always", <<L, x>>), "set_always", <<L, y>>).n = After("set_always", <<L, y>>)
  /\ \A op \in {"set", "set_always"} : \A j \in 2..5 : (~\E i \in 1..Len(LensFields(L)) : LensFields(L)[i] + 1 = j) => After(op, <<L, x>>)[j] = v[j]
  /\ After("set", <<L, x>>) \in {v, After("set_always", <<L, x>>)}
\* a prism reads what it wrote, rebuilds what it read, and leaves the other cases alone
PrismLaws == K(v) # "rec" => \A P \in Prisms :
  /\ \A x \in Foci(Width(P)) : Preview(P, After("review", <<P, x>>)) = x
  /\ Preview(P, v) # <<>> => Review(P, Preview(P, v)) = v
  /\ Preview(P, v) = <<>> => \A f \in {"f", "keep"} : After("modify", <<P, f>>) = v
  /\ After("modify", <<P, "keep">>) = v
  /\ \A x \in Foci(Width(P)) : Equal(Preview(P, After("set_if_different", <<P, x>>)), x)
=============================================================================
