------------------------------ MODULE MemoSpec ------------------------------
(* The memoizer as a state machine over one configuration of Memo; the       *)
(* algorithm of MemoMC is checked to refine it.                               *)
EXTENDS Memo
CONSTANTS Keys, Vals
VARIABLE cfg

Events == [op : {"get", "begin"}, t : Threads, k : Keys]
          \cup [op : {"clear", "break"}, t : Threads]
          \cup [op : {"end", "ret"}, t : Threads, v : Vals]

Init == cfg = Cfg0
Next == \/ cfg' \in Clos({cfg})
        \/ \E e \in Events : cfg' \in After({cfg}, e)
Spec == Init /\ [][Next]_cfg
=============================================================================
