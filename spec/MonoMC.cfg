SPECIFICATION Spec
CONSTANTS
  Kind = "str"
  Group = "all"
  Depth = 2
INVARIANTS Associative Neutral Folds Powers
CHECK_DEADLOCK FALSE
