SPECIFICATION TSpec
INVARIANT Ok
CHECK_DEADLOCK FALSE
