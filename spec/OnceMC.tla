------------------------------- MODULE OnceMC -------------------------------
(* The algorithm: the first run executes, runs that come meanwhile wait, later *)
(* ones read the cell.  Process NThreads + j is the computation of effect j,   *)
(* which runs effect j - 1; the threads run any of them.                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, CSV
CONSTANTS NThreads, MaxRuns, MaxSwitch, Depth
Threads == 1..NThreads
Effects == 1..Depth
Procs == 1..(NThreads + Depth)
Out == IOEnv.VK_OUT
VARIABLES todo, brk, ph, pc, tried, tgt, sched, last, sw
vars == <<todo, brk, ph, pc, tried, tgt, sched, last, sw>>

IsFut(p) == p > NThreads
Eff(p) == p - NThreads
T(p) == IF IsFut(p) THEN Eff(p) - 1 ELSE tgt[p]

Init == /\ \E q \in [Threads -> 1..MaxRuns] : todo = [p \in Procs |-> IF ~IsFut(p) THEN q[p] ELSE IF Eff(p) > 1 THEN 1 ELSE 0]
        /\ tgt \in [Threads -> Effects] /\ \E x \in Threads : tgt[x] = Depth
        /\ brk \in BOOLEAN
        /\ ph = [k \in Effects |-> <<"none">>] /\ pc = [p \in Procs |-> "idle"] /\ tried = {}
        /\ sched = <<>> /\ last = 0 /\ sw = 0

Call(p) == /\ pc[p] = "idle" /\ todo[p] > 0
           /\ IF IsFut(p) THEN ph[Eff(p)] = <<"begun">> ELSE \A y \in 1..(p - 1) : pc[y] # "idle" \/ todo[y] = 0
           /\ pc' = [pc EXCEPT ![p] = "in"] /\ UNCHANGED <<todo, ph, tried>>
Enter(p) == /\ pc[p] = "in" /\ ph[T(p)] = <<"none">>
            /\ ph' = [ph EXCEPT ![T(p)] = <<"begun">>] /\ pc' = [pc EXCEPT ![p] = "own"] /\ UNCHANGED <<todo, tried>>
Finish(p) == LET j == Eff(p) IN
             /\ ph[j] = <<"begun">> /\ todo[p] = 0 /\ pc[p] = "idle"
             /\ ph' = [ph EXCEPT ![j] = IF (IF j = 1 THEN brk ELSE ph[j - 1] = <<"broke">>) THEN <<"broke">> ELSE <<"done", 1>>]
             /\ UNCHANGED <<todo, pc, tried>>
Get(p) == /\ pc[p] \in {"in", "own"} /\ ph[T(p)][1] \in {"done", "broke"}
          /\ pc' = [pc EXCEPT ![p] = "copy"] /\ tried' = tried \ {p} /\ UNCHANGED <<todo, ph>>
Ret(p) == /\ pc[p] = "copy" /\ pc' = [pc EXCEPT ![p] = "idle"]
          /\ todo' = [todo EXCEPT ![p] = @ - 1] /\ UNCHANGED <<ph, tried>>
Try(p) == /\ pc[p] = "in" /\ ph[T(p)] = <<"begun">> /\ p \notin tried
          /\ tried' = tried \cup {p} /\ UNCHANGED <<todo, ph, pc>>
Step(p) == (IsFut(p) /\ Finish(p)) \/ (T(p) > 0 /\ (Call(p) \/ Enter(p) \/ Get(p) \/ Ret(p)))
Over(p) == IF IsFut(p) THEN ph[Eff(p)][1] \in {"done", "broke"} ELSE todo[p] = 0
AllDone == \A x \in Threads : todo[x] = 0

VARIABLE first
Case == [runs |-> first, brk |-> brk, tgt |-> tgt, depth |-> Depth, sched |-> sched']
MCInit == Init /\ first = [x \in Threads |-> todo[x]]
Next == \E p \in Procs :
          /\ Step(p) \/ (~IsFut(p) /\ Try(p))
          /\ sched' = Append(sched, p) /\ last' = p /\ UNCHANGED <<first, brk, tgt>>
          /\ sw' = IF last \in {0, p} \/ Over(last) \/ ~ENABLED Step(last) THEN sw ELSE sw + 1
          /\ sw' <= MaxSwitch
          /\ (\A y \in Threads : todo'[y] = 0) => CSVWrite("%1$s", <<ToJson(Case)>>, Out)
Spec == MCInit /\ [][Next]_<<vars, first>>

Name(p) == IF IsFut(p) THEN 100 + Eff(p) ELSE p
S == INSTANCE OnceSpec WITH Vals <- {1}, Callers <- {Name(p) : p \in Procs},
       cfg <- [ph |-> ph, in |-> {<<Name(p), T(p)>> : p \in {q \in Procs : pc[q] # "idle"}}]
Refines == S!Spec
NoStuck == AllDone \/ \E p \in Procs : ENABLED Step(p)
=============================================================================
