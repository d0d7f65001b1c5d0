------------------------------ MODULE OnceSpec ------------------------------
EXTENDS Once
CONSTANTS Callers, Depth, Vals
VARIABLE cfg
Effects == 1..Depth
Events == [op : {"call"}, t : Callers, k : Effects] \cup [op : {"begin", "break"}, k : Effects]
          \cup [op : {"end"}, k : Effects, v : Vals] \cup [op : {"ret"}, t : Callers, k : Effects, v : Vals \cup {Failed}]
Init == cfg = Cfg0(Depth)
Next == \E e \in Events : cfg' \in Match(cfg, e)
Spec == Init /\ [][Next]_cfg
=============================================================================
