----------------------------- MODULE AsyncTrace -----------------------------
(* Recorded polls of real async computations against Async.  Events: start p, *)
(* begin n i, go i, end i, boom n, pend (the poll gave Pending), done v, panic,*)
(* drop (the future is given up half way; a later run starts afresh).         *)
EXTENDS Async, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.VK_TRACE)
VARIABLES t, l, S, ok
vars == <<t, l, S, ok>>
Evs == Traces[t].evs
Idle == <<"idle">>
Next1(u, e) ==
  CASE e.op = "start" -> IF u = Idle THEN {Expand(e.p, <<>>)} ELSE {}
    [] u = Idle -> {}
    [] e.op = "pend"  -> IF Blocked(u) /\ ~Over(u) THEN {u} ELSE {}
    [] e.op = "done"  -> IF u = Val(e.v) THEN {Idle} ELSE {}
    [] e.op = "drop"  -> {Idle}
    [] e.op = "panic" -> IF u = Panic THEN {Idle} ELSE {}
    \* letting go a step whose computation was abandoned changes nothing
    [] e.op = "go"    -> LET N == On(u, e) IN IF N = {} THEN {u} ELSE N
    [] OTHER -> On(u, e)
TInit == t \in 1..Len(Traces) /\ l = 1 /\ S = {Idle} /\ ok = TRUE
TNext == /\ ok /\ l <= Len(Evs)
         /\ S' = UNION {Next1(u, Evs[l]) : u \in S}
         /\ ok' = (S' # {})
         /\ l' = l + 1 /\ UNCHANGED t
TSpec == TInit /\ [][TNext]_vars
Conforms == ok
=============================================================================
