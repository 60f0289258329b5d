SPECIFICATION Spec
CONSTANTS N = 14
INVARIANTS Short Right
PROPERTIES Ends
CHECK_DEADLOCK FALSE
