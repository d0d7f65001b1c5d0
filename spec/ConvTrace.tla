------------------------------ MODULE ConvTrace ------------------------------
(* Recorded journeys of a real value through the containers.                   *)
EXTENDS Conv, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.VK_TRACE)
VARIABLES t, l, ok, want, v
vars == <<t, l, ok, want, v>>
Evs == Traces[t].evs
TInit == t \in 1..Len(Traces) /\ l = 1 /\ ok = TRUE /\ want = <<"start">> /\ v = Traces[t].meta
TNext == /\ ok /\ l <= Len(Evs)
         /\ want' = Do(v, Evs[l].op, Evs[l].a)
         /\ v' = want'.n
         /\ ok' = (ToJson(<<want'.r, want'.n, want'.c>>) = ToJson(<<Evs[l].r, Evs[l].n, Evs[l].c>>))
         /\ l' = l + 1 /\ UNCHANGED t
TSpec == TInit /\ [][TNext]_vars
Conforms == ok
=============================================================================
