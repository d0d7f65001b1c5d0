------------------------------ MODULE ContTrace ------------------------------
(* Recorded runs against the machine: every logged effect and every call of   *)
(* a final continuation must be the machine's next one, and the answer its.   *)
(* One program may be run several times, with other final continuations.      *)
EXTENDS Cont, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.VK_TRACE)
VARIABLES t, l, m, ok, want
vars == <<t, l, m, ok, want>>
Idle == [c |-> <<"idle">>, log |-> <<>>]
Evs == Traces[t].evs
Ev == IF l <= Len(Evs) THEN Evs[l] ELSE [op |-> "none"]
TInit == /\ t \in 1..Len(Traces) /\ l = 1 /\ m = Idle /\ ok = TRUE /\ want = <<"start">>
Load1 == /\ l = 1 /\ Ev.op = "start" /\ m' = LoadF(Ev.p, Ev.k) /\ l' = 2 /\ UNCHANGED <<t, ok, want>>
Again == /\ ok /\ want = <<"over">> /\ Ev.op = "again"
         /\ m' = LoadF(Evs[1].p, Ev.k) /\ l' = l + 1 /\ want' = <<"again">> /\ UNCHANGED <<t, ok>>
Advance ==
  /\ l > 1 /\ ok /\ m.c[1] \notin {"idle", "done"}
  /\ m' = StepM(m)
  /\ IF Len(m'.log) > Len(m.log)
     THEN LET n == m'.log[Len(m'.log)] IN
          /\ ok' = (Ev.op = "log" /\ Ev.n = n) /\ want' = <<"log", n>> /\ l' = l + 1
     ELSE UNCHANGED <<ok, want, l>>
  /\ UNCHANGED t
End == /\ ok /\ m.c[1] = "done" /\ want # <<"over">>
       /\ ok' = (Ev.op = "end" /\ Ev.ans = m.ans)
       /\ want' = IF ok' THEN <<"over">> ELSE <<"end", m.ans>>
       /\ l' = l + 1 /\ UNCHANGED <<t, m>>
TNext == Load1 \/ Again \/ Advance \/ End
TSpec == TInit /\ [][TNext]_vars
Conforms == ok
=============================================================================
