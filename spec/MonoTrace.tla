------------------------------ MODULE MonoTrace ------------------------------
(* Recorded calls on the real instances, with larger values.                  *)
EXTENDS Mono, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.VK_TRACE)
VARIABLES t, l, ok, want
vars == <<t, l, ok, want>>
Evs == Traces[t].evs
TInit == t \in 1..Len(Traces) /\ l = 1 /\ ok = TRUE /\ want = <<"start">>
TNext == /\ ok /\ l <= Len(Evs)
         /\ want' = Do(Evs[l].m, Evs[l].op, Evs[l].a)
         /\ ok' = (ToJson(want') = ToJson(Evs[l].r))
         /\ l' = l + 1 /\ UNCHANGED t
TSpec == TInit /\ [][TNext]_vars
Conforms == ok
=============================================================================
