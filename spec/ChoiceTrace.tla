----------------------------- MODULE ChoiceTrace -----------------------------
(* Recorded histories on one real choice, threaded through the specification. *)
EXTENDS Choice, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.VK_TRACE)
VARIABLES t, l, v, ok, want
vars == <<t, l, v, ok, want>>
Evs == Traces[t].evs
TInit == t \in 1..Len(Traces) /\ l = 1 /\ v = <<>> /\ ok = TRUE /\ want = <<"start">>
TNext == /\ ok /\ l <= Len(Evs)
         /\ LET s == Do(v, Evs[l].op, Evs[l].a) IN
              /\ want' = <<s.r, s.v, Called(v, Evs[l].op, Evs[l].a)>>
              /\ v' = s.v
              /\ ok' = (ToJson(s.r) = ToJson(Evs[l].r) /\ s.v = Evs[l].n
                     /\ ToJson(want'[3]) \in {ToJson(Evs[l].c), ToJson(<<"?">>)})
         /\ l' = l + 1 /\ UNCHANGED t
TSpec == TInit /\ [][TNext]_vars
Conforms == ok
=============================================================================
