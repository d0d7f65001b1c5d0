SPECIFICATION Spec
CONSTANTS
  Depth = 3
INVARIANTS Typed Counted Agree ComonadLaws
CHECK_DEADLOCK FALSE
