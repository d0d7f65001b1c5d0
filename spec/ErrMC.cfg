SPECIFICATION Spec
CONSTANTS
  Depth = 3
  Group = "error"
INVARIANTS Typed KeepsContexts PipeContexts FormsAgree OneSide Erases
CHECK_DEADLOCK FALSE
