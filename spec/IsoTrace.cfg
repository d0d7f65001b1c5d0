SPECIFICATION TSpec
INVARIANT Conforms
CHECK_DEADLOCK FALSE
