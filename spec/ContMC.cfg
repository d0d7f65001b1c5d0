SPECIFICATION MCSpec
CONSTANTS
  Kind = "cont"
  MaxSize = 4
INVARIANTS AgreesDen
  NoMemory Emptied Laws
CHECK_DEADLOCK FALSE
