SPECIFICATION Spec
CONSTANTS Base = 3
 MaxN = 6
 MaxDepth = 3
INVARIANT Sound
PROPERTY Restores
CHECK_DEADLOCK FALSE
