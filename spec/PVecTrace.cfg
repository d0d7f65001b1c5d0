SPECIFICATION TSpec
INVARIANT Conforms
PROPERTY TPersistent
CHECK_DEADLOCK FALSE
