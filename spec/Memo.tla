-------------------------------- MODULE Memo --------------------------------
(***************************************************************************)
(* What a memoizer promises, seen from outside: requests and clears by      *)
(* threads, and the runs of the function they cause.                        *)
(*                                                                          *)
(* A configuration holds the cache and where every thread stands:           *)
(*   <<"idle">>            outside                                          *)
(*   <<"get", k>>          has asked for k, not yet decided                 *)
(*   <<"run", k, fresh>>   is running the function for k; fresh unless a    *)
(*                         clear took effect since it began                 *)
(*   <<"ran", k, v, fresh>> the function gave v, not yet published          *)
(*   <<"res", v>>          will be answered v                               *)
(*   <<"broke">>           its function panicked                            *)
(*   <<"clear">>, <<"cleared">>                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANT Threads

Empty == [k \in {} |-> 0]
Cfg0 == [cache |-> Empty, st |-> [x \in Threads |-> <<"idle">>], poi |-> FALSE]

Panic == -1

To(c, x, s) == [c EXCEPT !.st[x] = s]

\* steps nobody sees: a look-up that hits, publishing a result, a clear taking effect
HiddenOf(c, x) ==
  LET s == c.st[x] IN
  CASE s[1] = "get" /\ s[2] \in DOMAIN c.cache -> {To(c, x, <<"res", c.cache[s[2]]>>)}
    [] s[1] = "ran" /\ s[4]  -> {[To(c, x, <<"res", s[3]>>) EXCEPT !.cache = (s[2] :> s[3]) @@ c.cache]}
    [] s[1] = "ran" /\ ~s[4] -> {To(c, x, <<"res", s[3]>>)}
    [] s[1] = "clear" ->
         {[c EXCEPT !.cache = Empty,
                    !.st = [y \in Threads |->
                       CASE y = x -> <<"cleared">>
                         [] y # x /\ c.st[y][1] = "run" -> <<"run", c.st[y][2], FALSE>>
                         [] y # x /\ c.st[y][1] = "ran" -> <<"ran", c.st[y][2], c.st[y][3], FALSE>>
                         [] OTHER -> c.st[y]]]}
    [] OTHER -> {}
Hidden(c) == UNION {HiddenOf(c, x) : x \in Threads}

Busy(c, k) == \E y \in Threads : (c.st[y][1] = "run" /\ c.st[y][2] = k /\ c.st[y][3])
                              \/ (c.st[y][1] = "ran" /\ c.st[y][2] = k /\ c.st[y][4])

\* steps an observer sees
Match(c, e) ==
  LET s == c.st[e.t] IN
  CASE e.op = "get"   -> IF s = <<"idle">> THEN {To(c, e.t, <<"get", e.k>>)} ELSE {}
    [] e.op = "clear" -> IF s = <<"idle">> THEN {To(c, e.t, <<"clear">>)} ELSE {}
    [] e.op = "begin" -> IF s = <<"get", e.k>> /\ e.k \notin DOMAIN c.cache /\ ~Busy(c, e.k)
                         THEN {To(c, e.t, <<"run", e.k, TRUE>>)} ELSE {}
    [] e.op = "end"   -> IF s[1] = "run" THEN {To(c, e.t, <<"ran", s[2], e.v, s[3]>>)} ELSE {}
    [] e.op = "break" -> IF s[1] = "run" THEN {[To(c, e.t, <<"broke">>) EXCEPT !.poi = TRUE]} ELSE {}
    [] e.op = "ret"   -> IF \/ s = <<"res", e.v>>
                            \/ s = <<"cleared">> /\ e.v = 0
                            \/ e.v = Panic /\ (s = <<"broke">> \/ (c.poi /\ s[1] \in {"get", "clear"}))
                         THEN {To(c, e.t, <<"idle">>)} ELSE {}
    [] OTHER -> {}

RECURSIVE Clos(_)
Clos(S) == LET N == S \cup UNION {Hidden(c) : c \in S} IN IF N = S THEN S ELSE Clos(N)
After(S, e) == UNION {Match(c, e) : c \in Clos(S)}
=============================================================================
