------------------------------ MODULE PredTrace ------------------------------
(* Recorded programs on real predicates: after each step every predicate on    *)
(* the stack holds of exactly the values the machine says.                     *)
EXTENDS Pred, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.VK_TRACE)
VARIABLES t, l, ok, want, stk
vars == <<t, l, ok, want, stk>>
Evs == Traces[t].evs
TInit == t \in 1..Len(Traces) /\ l = 1 /\ ok = TRUE /\ want = <<"start">> /\ stk = <<>>
TNext == /\ ok /\ l <= Len(Evs)
         /\ stk' = Apply(stk, Evs[l].op)
         /\ want' = Tables(stk')
         /\ ok' = (ToJson(want') = ToJson(Evs[l].r))
         /\ l' = l + 1 /\ UNCHANGED t
TSpec == TInit /\ [][TNext]_vars
Conforms == ok
=============================================================================
