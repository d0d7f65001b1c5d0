------------------------------ MODULE OnceTrace ------------------------------
EXTENDS Once, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.VK_TRACE)
VARIABLES t, l, S, ok
vars == <<t, l, S, ok>>
Evs == Traces[t].evs
TInit == t \in 1..Len(Traces) /\ l = 1 /\ S = {Cfg0(Traces[t].meta.depth)} /\ ok = TRUE
TNext == /\ ok /\ l <= Len(Evs)
         /\ S' = UNION {Match(c, Evs[l]) : c \in S}
         /\ ok' = (S' # {})
         /\ l' = l + 1 /\ UNCHANGED t
TSpec == TInit /\ [][TNext]_vars
Conforms == ok
=============================================================================
