SPECIFICATION Spec
CONSTANTS
  Kind = "plain"
  MaxSize = 4
INVARIANTS SameValue Ordered Whole NoStuck
CHECK_DEADLOCK FALSE
