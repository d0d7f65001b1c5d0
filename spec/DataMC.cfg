SPECIFICATION Spec
CONSTANTS
  Kind = "option"
  Group = "law"
  Depth = 2
INVARIANTS TypeOK LawsHold
CHECK_DEADLOCK FALSE
