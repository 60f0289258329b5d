SPECIFICATION Spec
CONSTANTS Ps = {0, 7, 9, 16}
 Qs = {0, 3, 8}
 Depth = 3
INVARIANTS InUnit OrderFree
PROPERTIES StaysKnown InvalidIgnored
CHECK_DEADLOCK FALSE
