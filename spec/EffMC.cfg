SPECIFICATION MCSpec
CONSTANTS
  Kind = "state"
  MaxSize = 4
INVARIANTS Terminates AgreesDen Restored OnlyOne Laws
PROPERTIES LogGrows
CHECK_DEADLOCK FALSE
