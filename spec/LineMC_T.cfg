SPECIFICATION Spec
CONSTANTS N = 40
INVARIANTS Short Right
PROPERTIES Ends
CHECK_DEADLOCK FALSE
