SPECIFICATION Spec
CONSTANTS
  Depth = 2
  Big = TRUE
INVARIANTS TypeOK Laws
CHECK_DEADLOCK FALSE
