------------------------------ MODULE PVecMC ------------------------------
(***************************************************************************)
(* Exhaustive enumeration of histories of PVec up to a depth, each of them *)
(* emitted (ops and every version's expected contents) for replay on the   *)
(* real code.  `hist` is part of the state on purpose: the real vector's   *)
(* internal shape depends on the history, not only on the contents.        *)
(***************************************************************************)
EXTENDS PVec, Json, CSV, IOUtils

CONSTANTS Starts,     \* initial lengths
          Fronts,     \* elements then pushed to the front
          Chunk,      \* capacity of a leaf, for the calls that run across one
          Joins,      \* length of a vector then appended (0: none)
          Depth,      \* calls after that
          AllIdx,     \* TRUE: every index; FALSE: 1, middle, last
          Small       \* TRUE: element values from a three-element set (comparison)

Out == IOEnv.VK_OUT
VARIABLES hist, rets, pre

vars == <<vers, hist, rets, pre>>

Val(k) == IF Small THEN k % 3 ELSE k % M

Cur   == Len(vers)
IdxOf(s) == IF AllIdx THEN 0..Len(s)
            ELSE {k \in {1, Len(s) \div 2, Len(s) - 1} : k >= 0}

Fresh == Val(40 + Len(hist))

\* operand of a binary call: the newest version, its predecessor, the first one
Others == {1, Cur, IF Cur > 1 THEN Cur - 1 ELSE 1}

Calls ==
  LET s == vers[Cur] IN
     {[op |-> o, v |-> Cur, x |-> Fresh] : o \in {"push_back", "push_front"}}
  \cup {[op |-> o, v |-> Cur] : o \in {"pop_back", "pop_front"}}
  \cup {[op |-> "insert", v |-> Cur, i |-> k, x |-> Fresh] : k \in IdxOf(s)}
  \cup {[op |-> o, v |-> Cur, i |-> k] : o \in {"remove", "take", "skip", "split_at"}, k \in IdxOf(s)}
  \cup {[op |-> "update", v |-> Cur, i |-> k, x |-> Fresh] : k \in IdxOf(s)}
  \cup {[op |-> "concat", v |-> Cur, w |-> k] : k \in Others}
  \cup {[op |-> "concat", v |-> k, w |-> Cur] : k \in Others}
  \cup {[op |-> "extend", v |-> Cur, xs |-> [k \in 1..3 |-> Val(60 + k)]]}
  \cup (IF Chunk = 0 THEN {} ELSE
           {[op |-> o, v |-> Cur, xs |-> [k \in 1..n |-> Val(60 + k)]] : o \in {"extend", "push_fronts"}, n \in {Chunk, Chunk + 1}}
      \cup {[op |-> o, v |-> Cur, i |-> n] : o \in {"pop_fronts", "pop_backs"}, n \in {Chunk, Chunk + 1}})

Start(n) == [op |-> "from", xs |-> [k \in 1..n |-> Val(k)]]

\* the calls that build the shape the history begins with
Prefix(n, f, j) ==
     <<Start(n)>>
  \o (IF f = 0 THEN <<>> ELSE <<[op |-> "push_fronts", v |-> 1, xs |-> [k \in 1..f |-> Val(70 + k)]]>>)
  \o (IF j = 0 THEN <<>>
      ELSE <<[op |-> "from", xs |-> [k \in 1..j |-> Val(20 + k)]],
             [op |-> "concat", v |-> IF f = 0 THEN 1 ELSE 2, w |-> IF f = 0 THEN 2 ELSE 3]>>)

MCInit == /\ vers = <<>> /\ hist = <<>> /\ rets = <<>> /\ pre = 0

Steps(es) ==
  LET r == FoldLeft(LAMBDA a, e : LET x == Eval(a.vers, e)
                                  IN [vers |-> a.vers \o x.new, rets |-> Append(a.rets, x.ret)],
                    [vers |-> vers, rets |-> rets], es)
  IN /\ vers' = r.vers
     /\ hist' = hist \o es
     /\ rets' = r.rets

MCNext == \/ /\ hist = <<>>
             /\ \E n \in Starts, f \in Fronts, j \in Joins :
                  Steps(Prefix(n, f, j)) /\ pre' = Len(Prefix(n, f, j))
          \/ /\ hist # <<>> /\ Len(hist) < pre + Depth /\ vers # <<>>
             /\ \E e \in Calls : Steps(<<e>>)
             /\ UNCHANGED pre

MCSpec == MCInit /\ [][MCNext]_vars

\* invariants of the model
TypeOK == \A i \in DOMAIN vers : \A k \in DOMAIN vers[i] : vers[i][k] \in 0..M
MCPersistent == [][IsPrefix(vers, vers')]_vars
\* taking a prefix and the rest apart and joining them is the identity, inserting and removing are inverse
Algebra == \A i \in DOMAIN vers : Len(vers[i]) <= 14 => LET s == vers[i] IN
     /\ \A k \in 0..(Len(s) + 1) : Take(s, k) \o Skip(s, k) = s
     /\ \A k \in 0..Len(s) : RemoveAt0(InsertAt0(s, k, 1), k) = s
     /\ FlattenSeq(Chunks(s, 3)) = s

\* comparison is a total order whose equality is equality of the contents
CmpOf(i, j) == Eval(vers, [op |-> "compare", v |-> i, w |-> j]).ret
TotalOrder == Small => \A i, j, k \in DOMAIN vers :
     /\ CmpOf(i, j)[2] <=> vers[i] = vers[j]
     /\ ~ (CmpOf(i, j)[2] /\ CmpOf(i, j)[3])
     /\ CmpOf(i, j)[2] \/ CmpOf(i, j)[3] \/ CmpOf(j, i)[3]
     /\ CmpOf(i, j)[3] /\ CmpOf(j, k)[3] => CmpOf(i, k)[3]

\* every complete history is written out
Emit == (hist # <<>> /\ Len(hist) = pre + Depth) =>
          CSVWrite("%1$s", <<ToJson([h |-> hist, vers |-> vers, rets |-> rets,
            cmps |-> IF Small
                     THEN [i \in DOMAIN vers |-> [j \in DOMAIN vers |->
                             Eval(vers, [op |-> "compare", v |-> i, w |-> j]).ret]]
                     ELSE <<>>])>>, Out)
=============================================================================
