SPECIFICATION Spec
INVARIANTS InOrder Frozen
PROPERTY Grows
CONSTANTS N = 5 M = 2
CHECK_DEADLOCK FALSE
