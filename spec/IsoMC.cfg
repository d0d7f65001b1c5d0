SPECIFICATION Spec
CONSTANTS
  Size = 3
  MaxLen = 3
  Depth = 1
INVARIANTS Typed Inverts IsoOptics
CHECK_DEADLOCK FALSE
