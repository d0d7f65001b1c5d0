------------------------------ MODULE ArrowTrace ------------------------------
(* Recorded runs of real morphisms against the machine: every call must be the  *)
(* machine's next one, and the datum at the end its datum.                      *)
EXTENDS Arrow, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.VK_TRACE)
VARIABLES t, l, ok, want, m
vars == <<t, l, ok, want, m>>
Idle == [todo |-> <<>>, stk |-> <<>>, log |-> <<>>]
Evs == Traces[t].evs
Ev == IF l <= Len(Evs) THEN Evs[l] ELSE [op |-> "none"]
TInit == t \in 1..Len(Traces) /\ l = 1 /\ ok = TRUE /\ want = <<"start">> /\ m = Idle
Start == /\ ok /\ m = Idle /\ Ev.op # "none"
         /\ ok' = (Ev.op = "start") /\ m' = (IF ok' THEN Load(Ev.p, Ev.s) ELSE Idle)
         /\ l' = l + 1 /\ want' = <<"start">> /\ UNCHANGED t
Advance == /\ ok /\ ~Done(m) /\ m' = StepM(m) /\ UNCHANGED t
           /\ IF Len(m'.log) > Len(m.log)
              THEN LET n == m'.log[Len(m'.log)] IN
                   ok' = (Ev.op = "call" /\ Ev.n = n) /\ want' = <<"call", n>> /\ l' = l + 1
              ELSE UNCHANGED <<ok, want, l>>
End == /\ ok /\ Done(m) /\ m # Idle /\ UNCHANGED t
       /\ ok' = (Ev.op = "end" /\ ToJson(Ev.d) = ToJson(Value(m))) /\ want' = <<"end", Value(m)>>
       /\ l' = l + 1 /\ m' = Idle
TNext == Start \/ Advance \/ End
TSpec == TInit /\ [][TNext]_vars
Conforms == ok
=============================================================================
