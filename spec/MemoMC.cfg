SPECIFICATION Spec
CONSTANTS
  NThreads = 2
  MaxOps = 2
  MaxSwitch = 2
  OpSet = {"g1", "g2", "p1", "c"}
INVARIANTS OnceBetweenClears NoStuck Exclusive
PROPERTIES Refines
CHECK_DEADLOCK FALSE
