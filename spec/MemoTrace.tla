------------------------------ MODULE MemoTrace ------------------------------
(* Checks recorded histories of the real memoizer against Memo: S is the set  *)
(* of configurations that explain the events so far; it must not be empty.    *)
EXTENDS Memo, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.VK_TRACE)
VARIABLES t, l, S, ok
vars == <<t, l, S, ok>>
Evs == Traces[t].evs
TInit == t \in 1..Len(Traces) /\ l = 1 /\ S = {Cfg0} /\ ok = TRUE
TNext == /\ ok /\ l <= Len(Evs)
         /\ S' = After(S, Evs[l])
         /\ ok' = (S' # {})
         /\ l' = l + 1 /\ UNCHANGED t
TSpec == TInit /\ [][TNext]_vars
Conforms == ok
=============================================================================
