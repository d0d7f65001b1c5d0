------------------------------ MODULE EffTrace ------------------------------
(***************************************************************************)
(* Checks recorded runs of effect programs against the machine of Eff: the *)
(* machine runs each program; every logged effect of the code must be the  *)
(* next one of the machine, and the outcomes must be the machine's.  A     *)
(* program may be run again, from another state and environment.           *)
(***************************************************************************)
EXTENDS Eff, Json, IOUtils, TLC

Traces == ndJsonDeserialize(IOEnv.VK_TRACE)

VARIABLES t, l, m, ok, want
vars == <<t, l, m, ok, want>>

Idle == [c |-> <<"idle">>, log |-> <<>>]
Evs == Traces[t].evs
Ev == IF l <= Len(Evs) THEN Evs[l] ELSE [op |-> "none"]

TInit == /\ t \in 1..Len(Traces) /\ l = 1 /\ m = Idle /\ ok = TRUE /\ want = <<"start">>

Load1 == \/ /\ l = 1 /\ Ev.op = "start"
            /\ m' = Load(Ev.p, Ev.s, Ev.r)
            /\ l' = 2 /\ want' = <<"run">> /\ UNCHANGED <<t, ok>>
         \/ /\ l > 1 /\ ok /\ want = <<"over">> /\ Ev.op = "again"
            /\ m' = Load(Evs[1].p, Ev.s, Ev.r)
            /\ l' = l + 1 /\ want' = <<"run">> /\ UNCHANGED <<t, ok>>

\* a machine step; if it logs, the recorded run must log the same
Advance ==
  /\ l > 1 /\ ok /\ m.c[1] \notin {"idle", "done"}
  /\ m' = StepM(m)
  /\ IF Len(m'.log) > Len(m.log)
     THEN LET n == m'.log[Len(m'.log)] IN
          /\ ok' = (Ev.op = "log" /\ Ev.n = n)
          /\ want' = <<"log", n>>
          /\ l' = l + 1
     ELSE UNCHANGED <<ok, want, l>>
  /\ UNCHANGED t

End ==
  /\ ok /\ m.c[1] = "done" /\ want # <<"over">>
  /\ ok' = (Ev.op = "end" /\ ToJson(Ev.res) = ToJson(m.res))
  /\ want' = IF ok' THEN <<"over">> ELSE <<"end", m.res>>
  /\ l' = l + 1 /\ UNCHANGED <<t, m>>

TNext == Load1 \/ Advance \/ End
TSpec == TInit /\ [][TNext]_vars
Conforms == ok
=============================================================================
