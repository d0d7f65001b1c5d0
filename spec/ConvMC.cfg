SPECIFICATION Spec
CONSTANTS
  Depth = 3
INVARIANTS Typed RoundTrips ReadOnly
CHECK_DEADLOCK FALSE
