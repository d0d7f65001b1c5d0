----------------------------- MODULE ValidTrace -----------------------------
(* Recorded histories on one real validated value.                            *)
EXTENDS Valid, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.VK_TRACE)
VARIABLES t, l, v, ok, want
vars == <<t, l, v, ok, want>>
Evs == Traces[t].evs
TInit == t \in 1..Len(Traces) /\ l = 1 /\ v = Ok("a") /\ ok = TRUE /\ want = <<"start">>
TNext == /\ ok /\ l <= Len(Evs)
         /\ LET s == Do(v, Evs[l].op, Evs[l].a) IN
              /\ want' = s
              /\ v' = s.v
              /\ ok' = (ToJson(s.r) = ToJson(Evs[l].r) /\ ToJson(s.v) = ToJson(Evs[l].n) /\ ToJson(s.c) = ToJson(Evs[l].c))
         /\ l' = l + 1 /\ UNCHANGED t
TSpec == TInit /\ [][TNext]_vars
Conforms == ok
=============================================================================
