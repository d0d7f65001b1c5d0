SPECIFICATION Spec
CONSTANTS
  NThreads = 2
  MaxRuns = 2
  MaxSwitch = 2
  Depth = 1
INVARIANTS NoStuck
PROPERTIES Refines
CHECK_DEADLOCK FALSE
