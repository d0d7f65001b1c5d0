SPECIFICATION Spec
CONSTANTS
  MaxLen = 5
  MaxStack = 3
INVARIANTS Algebra Spread Lazy
CHECK_DEADLOCK FALSE
