SPECIFICATION Spec
CONSTANTS
  Depth = 2
INVARIANTS Typed LensLaws PrismLaws
CHECK_DEADLOCK FALSE
