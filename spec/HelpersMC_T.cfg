SPECIFICATION Spec
INVARIANTS InOrder Frozen
PROPERTY Grows
CONSTANTS N = 7 M = 2
CHECK_DEADLOCK FALSE
