SPECIFICATION MCSpec
CONSTANTS
  MaxSize = 3
  Runs = 2
INVARIANTS AgreesDen Category Arrows Conditional
CHECK_DEADLOCK FALSE
