------------------------------ MODULE DataTrace ------------------------------
(* Recorded operations on the real containers, with larger arguments: each    *)
(* must have the result the specification gives.                              *)
EXTENDS Data, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.VK_TRACE)
VARIABLES t, l, ok, want
vars == <<t, l, ok, want>>
Evs == Traces[t].evs
TInit == t \in 1..Len(Traces) /\ l = 1 /\ ok = TRUE /\ want = <<"start">>
TNext == /\ ok /\ l <= Len(Evs)
         /\ want' = Res(Evs[l].m, Evs[l].op, Evs[l].a)
         /\ ok' = (ToJson(want') = ToJson(Evs[l].r))
         /\ l' = l + 1 /\ UNCHANGED t
TSpec == TInit /\ [][TNext]_vars
Conforms == ok
=============================================================================
