------------------------------- MODULE PVec -------------------------------
(***************************************************************************)
(* Abstract machine of rustica's PersistentVector.                         *)
(*                                                                         *)
(* State: `vers`, the heap of every version ever derived, in creation      *)
(* order; a version is nothing but the finite sequence of its elements.    *)
(* Transition: one public API call `e` (a record whose field `op` names    *)
(* the call), which may append versions to the heap and return a result.   *)
(* Nothing in the heap ever changes: that is the persistence property.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, Functions, TLC

VARIABLE vers

M == 100                                   \* element arithmetic is modulo M
MapF(x)   == (3 * x + 7) % M
Even(x)   == x % 2 = 0
FmKeep(x) == x % 3 # 0
FlatF(x)  == IF x % 2 = 1 THEN <<x, (x + 1) % M>> ELSE IF x % 4 = 0 THEN <<x>> ELSE <<>>

Take(s, n) == SubSeq(s, 1, IF n > Len(s) THEN Len(s) ELSE n)
Skip(s, n) == SubSeq(s, n + 1, Len(s))

InsertAt0(s, i, x) == IF i >= Len(s) THEN Append(s, x)
                   ELSE SubSeq(s, 1, i) \o <<x>> \o SubSeq(s, i + 1, Len(s))
RemoveAt0(s, i)    == SubSeq(s, 1, i) \o SubSeq(s, i + 2, Len(s))
Update(s, i, x) == IF i < Len(s) THEN [s EXCEPT ![i + 1] = x] ELSE s
MapSeq(s)       == [i \in 1..Len(s) |-> MapF(s[i])]
Filter(s)       == SelectSeq(s, Even)
Odd(x)          == ~Even(x)
FilterMap(s)    == MapSeq(SelectSeq(s, FmKeep))
FlatMap(s)      == FlattenSeq([i \in 1..Len(s) |-> FlatF(s[i])])
DedupIdx(s)     == SelectSeq([i \in 1..Len(s) |-> i], LAMBDA i : i = 1 \/ s[i - 1] # s[i])
Dedup(s)        == LET ix == DedupIdx(s) IN [k \in 1..Len(ix) |-> s[ix[k]]]
\* elements that may be equal without being the same, and elements not even equal to themselves
ClassOf(x)      == (x + 1) \div 2
Strange(x)      == x % 5 = 0
DedupClass(s)   == LET ix == SelectSeq([i \in 1..Len(s) |-> i], LAMBDA i : i = 1 \/ ClassOf(s[i - 1]) # ClassOf(s[i]))
                   IN [k \in 1..Len(ix) |-> s[ix[k]]]
Least(ks)       == CHOOSE k \in ks : \A m \in ks : k <= m
Shorter(s, t)   == IF Len(s) < Len(t) THEN "lt" ELSE IF Len(s) > Len(t) THEN "gt" ELSE "eq"
Common(s, t)    == 1..(IF Len(s) < Len(t) THEN Len(s) ELSE Len(t))
ClassCmp(s, t)  == LET df == {k \in Common(s, t) : ClassOf(s[k]) # ClassOf(t[k])}
                   IN IF df = {} THEN Shorter(s, t) ELSE IF ClassOf(s[Least(df)]) < ClassOf(t[Least(df)]) THEN "lt" ELSE "gt"
PartEq(s, t)    == s = t /\ \A k \in DOMAIN s : ~Strange(s[k])
PartCmp(s, t)   == LET df == {k \in Common(s, t) : s[k] # t[k] \/ Strange(s[k])}
                       k  == Least(df)
                   IN IF df = {} THEN Shorter(s, t)
                      ELSE IF Strange(s[k]) \/ Strange(t[k]) THEN "none" ELSE IF s[k] < t[k] THEN "lt" ELSE "gt"
Sorted(s)       == SortSeq(s, <)
ZipSeq(s, t)    == [i \in 1..(IF Len(s) < Len(t) THEN Len(s) ELSE Len(t)) |-> <<s[i], t[i]>>]
Chunks(s, k)    == IF k = 0 THEN <<>>
                   ELSE [j \in 1..((Len(s) + k - 1) \div k) |->
                           SubSeq(s, (j - 1) * k + 1, IF j * k > Len(s) THEN Len(s) ELSE j * k)]
\* order-sensitive folds, modulo a prime
FoldL(s) == FoldLeft(LAMBDA a, x : (a * 7 + x + 1) % 9973, 5, s)
FoldR(s) == FoldLeft(LAMBDA a, x : (a * 7 + x + 1) % 9973, 5, Reverse(s))

\* the caller's function is run once on every element, in order
Ran(s) == <<"ran", Len(s), FoldL(s)>>
Res(new, ret) == [new |-> new, ret |-> ret]

(* Result of the call e in heap h. ret is a tagged tuple.                  *)
Eval(h, e) ==
  LET s == IF "v" \in DOMAIN e THEN h[e.v] ELSE <<>>
  IN CASE e.op = "from"       -> Res(<<e.xs>>, <<"vec">>)
       [] e.op = "clone"      -> Res(<<s>>, <<"vec">>)
       [] e.op = "push_back"  -> Res(<<Append(s, e.x)>>, <<"vec">>)
       [] e.op = "push_front" -> Res(<< <<e.x>> \o s >>, <<"vec">>)
       [] e.op = "extend"     -> Res(<<s \o e.xs>>, <<"vec">>)
       [] e.op = "pop_back"   -> IF s = <<>> THEN Res(<<>>, <<"none">>)
                                 ELSE Res(<<SubSeq(s, 1, Len(s) - 1)>>, <<"some", s[Len(s)]>>)
       [] e.op = "pop_front"  -> IF s = <<>> THEN Res(<<>>, <<"none">>)
                                 ELSE Res(<<Tail(s)>>, <<"some", s[1]>>)
       \* the same call repeated on the version it has just made
       [] e.op = "push_fronts" -> Res(<<Reverse(e.xs) \o s>>, <<"vec">>)
       [] e.op = "pop_backs"  -> Res(<<Take(s, IF e.i < Len(s) THEN Len(s) - e.i ELSE 0)>>, <<"popped", Reverse(Skip(s, IF e.i < Len(s) THEN Len(s) - e.i ELSE 0))>>)
       [] e.op = "pop_fronts" -> Res(<<Skip(s, e.i)>>, <<"popped", Take(s, e.i)>>)
       [] e.op = "insert"     -> Res(<<InsertAt0(s, e.i, e.x)>>, <<"vec">>)
       [] e.op = "remove"     -> IF e.i < Len(s) THEN Res(<<RemoveAt0(s, e.i)>>, <<"some">>)
                                 ELSE Res(<<>>, <<"none">>)
       [] e.op = "update"     -> Res(<<Update(s, e.i, e.x)>>, <<"vec">>)
       [] e.op = "try_update" -> IF e.i < Len(s) THEN Res(<<Update(s, e.i, e.x)>>, <<"ok">>)
                                 ELSE Res(<<>>, <<"oob", e.i, Len(s)>>)
       [] e.op = "split_at"   -> Res(<<Take(s, e.i), Skip(s, e.i)>>, <<"vec">>)
       [] e.op = "take"       -> Res(<<Take(s, e.i)>>, <<"vec">>)
       [] e.op = "skip"       -> Res(<<Skip(s, e.i)>>, <<"vec">>)
       [] e.op = "concat"     -> Res(<<s \o h[e.w]>>, <<"vec">>)
       [] e.op = "map"        -> Res(<<MapSeq(s)>>, Ran(s))
       [] e.op = "filter"     -> Res(<<Filter(s)>>, Ran(s))
       [] e.op = "filter_map" -> Res(<<FilterMap(s)>>, Ran(s))
       [] e.op = "flat_map"   -> Res(<<FlatMap(s)>>, Ran(s))
       [] e.op = "dedup"      -> Res(<<Dedup(s)>>, <<"vec">>)
       [] e.op = "dedup_class" -> Res(<<DedupClass(s)>>, <<"vec">>)
       [] e.op = "sorted"     -> Res(<<Sorted(s)>>, <<"vec">>)
       [] e.op = "partition"  -> Res(<<Filter(s), SelectSeq(s, Odd)>>, Ran(s))
       [] e.op = "zip"        -> Res(<<>>, <<"zip", ZipSeq(s, h[e.w])>>)
       [] e.op = "chunk"      -> Res(<<>>, <<"chunks", Chunks(s, e.i)>>)
       [] e.op = "try_get"    -> Res(<<>>, IF e.i < Len(s) THEN <<"ok", s[e.i + 1]>>
                                           ELSE <<"oob", e.i, Len(s)>>)
       \* a version is given up; nobody else notices, and it is not used again
       [] e.op = "drop"       -> Res(<<>>, <<"gone">>)
       [] e.op = "fold"       -> Res(<<>>, <<"fold", FoldL(s), FoldR(s)>>)
       [] e.op = "reread"     -> Res(<<>>, <<"content", s>>)
       [] e.op = "compare"    -> LET t == h[e.w]
                                     eq == s = t
                                     \* lexicographic order of the contents
                                     n  == IF Len(s) < Len(t) THEN Len(s) ELSE Len(t)
                                     df == {k \in 1..n : s[k] # t[k]}
                                     lt == IF df = {} THEN Len(s) < Len(t)
                                           ELSE LET k == CHOOSE k \in df : \A m \in df : k <= m
                                                IN s[k] < t[k]
                                 IN Res(<<>>, <<"cmp", eq, lt, ClassCmp(s, t), PartEq(s, t), PartCmp(s, t)>>)

Do(e) == vers' = vers \o Eval(vers, e).new

Init == vers = <<>>

\* persistence: a step only ever adds versions; what exists stays as it is
Persistent == [][IsPrefix(vers, vers')]_vers
=============================================================================
