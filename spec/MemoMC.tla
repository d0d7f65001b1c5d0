------------------------------- MODULE MemoMC -------------------------------
(***************************************************************************)
(* The algorithm: read-locked look-up, write lock, second look-up, the      *)
(* function under the lock, insertion.  TLC checks that it refines MemoSpec *)
(* under every schedule, and writes every schedule with at most MaxSwitch   *)
(* preemptions for the harness to perform on the real code.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, CSV

CONSTANTS NThreads, MaxOps, MaxSwitch, OpSet

Threads == 1..NThreads
Op(o) == CASE o = "g1" -> [o |-> "get", k |-> 1, p |-> FALSE]
           [] o = "g2" -> [o |-> "get", k |-> 2, p |-> FALSE]
           [] o = "p1" -> [o |-> "get", k |-> 1, p |-> TRUE]
           [] o = "c"  -> [o |-> "clear"]

Out == IOEnv.VK_OUT

VARIABLES script, cache, lk, poi, pc, pos, val, n, runs, tried, sched, last, sw
vars == <<script, cache, lk, poi, pc, pos, val, n, runs, tried, sched, last, sw>>

Seqs == UNION {[1..i -> OpSet] : i \in 1..MaxOps}

Init == /\ script \in [Threads -> Seqs]
        /\ cache = [k \in {} |-> 0] /\ lk = 0 /\ poi = FALSE
        /\ pc = [x \in Threads |-> "idle"]
        /\ pos = [x \in Threads |-> 1]
        /\ val = [x \in Threads |-> 0]
        /\ tried = {}
        /\ n = 0 /\ runs = [k \in {1, 2} |-> 0]
        /\ sched = <<>> /\ last = 0 /\ sw = 0

Cur(x) == Op(script[x][pos[x]])
Finished(x) == pos[x] > Len(script[x])

Ret(x) == /\ pc' = [pc EXCEPT ![x] = "idle"] /\ pos' = [pos EXCEPT ![x] = @ + 1]

\* the threads are interchangeable: they start in order
Call(x) == /\ pc[x] = "idle" /\ ~Finished(x)
           /\ \A y \in 1..(x - 1) : pc[y] # "idle" \/ pos[y] > 1
           /\ pc' = [pc EXCEPT ![x] = IF Cur(x).o = "get" THEN "look" ELSE "clr"]
           /\ UNCHANGED <<cache, lk, poi, pos, val, n, runs>>

Look(x) == /\ pc[x] = "look" /\ lk = 0
           /\ IF poi \/ Cur(x).k \in DOMAIN cache
              THEN Ret(x)
              ELSE pc' = [pc EXCEPT ![x] = "lock"] /\ UNCHANGED pos
           /\ UNCHANGED <<cache, lk, poi, val, n, runs>>

Lock(x) == /\ pc[x] = "lock" /\ lk = 0
           /\ IF poi \/ Cur(x).k \in DOMAIN cache
              THEN Ret(x) /\ UNCHANGED <<lk, runs>>
              ELSE /\ pc' = [pc EXCEPT ![x] = "run"] /\ lk' = x
                   /\ runs' = [runs EXCEPT ![Cur(x).k] = @ + 1] /\ UNCHANGED pos
           /\ UNCHANGED <<cache, poi, val, n>>

Run(x) == /\ pc[x] = "run"
          /\ IF Cur(x).p
             THEN /\ poi' = TRUE /\ lk' = 0 /\ pc' = [pc EXCEPT ![x] = "die"] /\ UNCHANGED <<val, n, pos>>
             ELSE /\ n' = n + 1 /\ val' = [val EXCEPT ![x] = n + 1]
                  /\ pc' = [pc EXCEPT ![x] = "ins"] /\ UNCHANGED <<pos, poi, lk>>
          /\ UNCHANGED <<cache, runs>>

Ins(x) == /\ pc[x] = "ins"
          /\ cache' = (Cur(x).k :> val[x]) @@ cache /\ lk' = 0 /\ Ret(x)
          /\ UNCHANGED <<poi, val, n, runs>>

Clr(x) == /\ pc[x] = "clr" /\ lk = 0 /\ Ret(x)
          /\ IF poi THEN UNCHANGED <<cache, runs>>
             ELSE cache' = [k \in {} |-> 0] /\ runs' = [k \in {1, 2} |-> 0]
          /\ UNCHANGED <<lk, poi, val, n>>

Die(x) == pc[x] = "die" /\ Ret(x) /\ UNCHANGED <<cache, lk, poi, val, n, runs>>

Step(x) == Die(x) \/ Call(x) \/ Look(x) \/ Lock(x) \/ Run(x) \/ Ins(x) \/ Clr(x)

\* running into the lock: nothing happens here, but the harness must have tried
Try(x) == /\ pc[x] \in {"look", "lock", "clr"} /\ lk # 0 /\ x \notin tried
          /\ tried' = tried \cup {x}
          /\ UNCHANGED <<cache, lk, poi, pc, pos, val, n, runs>>

AllDone == \A x \in Threads : Finished(x)
Case == [n |-> NThreads, script |-> [x \in Threads |-> [i \in 1..Len(script[x]) |-> Op(script[x][i])]], sched |-> sched']

Next == \E x \in Threads :
          /\ \/ Step(x) /\ tried' = IF pc'[x] # pc[x] THEN tried \ {x} ELSE tried
             \/ Try(x)
          /\ sched' = Append(sched, x) /\ last' = x /\ script' = script
          \* leaving a thread that could go on is a preemption
          /\ sw' = IF last \in {0, x} \/ Finished(last) \/ ~ENABLED Step(last) THEN sw ELSE sw + 1
          /\ sw' <= MaxSwitch
          /\ (\A y \in Threads : pos'[y] > Len(script[y])) => CSVWrite("%1$s", <<ToJson(Case)>>, Out)

Spec == Init /\ [][Next]_vars

\* ---- refinement
St(x) == CASE pc[x] = "idle" -> <<"idle">>
           [] pc[x] \in {"look", "lock"} -> <<"get", Cur(x).k>>
           [] pc[x] = "run" -> <<"run", Cur(x).k, TRUE>>
           [] pc[x] = "ins" -> <<"ran", Cur(x).k, val[x], TRUE>>
           [] pc[x] = "die" -> <<"broke">>
           [] pc[x] = "clr" -> <<"clear">>
M == INSTANCE MemoSpec WITH Keys <- {1, 2}, Vals <- -1..(NThreads * MaxOps),
                            cfg <- [cache |-> cache, st |-> [x \in Threads |-> St(x)], poi |-> poi]
Refines == M!Spec

\* ---- invariants
OnceBetweenClears == ~poi => \A k \in {1, 2} : runs[k] <= 1
NoStuck == AllDone \/ \E x \in Threads : ENABLED Step(x)
Exclusive == Cardinality({x \in Threads : pc[x] \in {"run", "ins"}}) <= 1
=============================================================================
