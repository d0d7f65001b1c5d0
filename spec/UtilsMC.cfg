SPECIFICATION Spec
CONSTANTS
  MaxLen = 4
  Depth = 2
INVARIANTS Typed Traverses Validates Filters Pipes
CHECK_DEADLOCK FALSE
