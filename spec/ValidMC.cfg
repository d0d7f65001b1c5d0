SPECIFICATION Spec
CONSTANTS
  Depth = 2
INVARIANTS TypeOK NothingLost
CHECK_DEADLOCK FALSE
