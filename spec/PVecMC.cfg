SPECIFICATION MCSpec
CONSTANTS
  Starts = {0, 1, 3, 7}
  Fronts = {0}
  Joins = {0}
  Chunk = 0
  Depth = 2
  AllIdx = TRUE
  Small = FALSE
INVARIANTS TypeOK Algebra TotalOrder Emit
PROPERTY MCPersistent
CHECK_DEADLOCK FALSE
