SPECIFICATION Spec
CONSTANTS N = 5
 TMax = 2
 Links = 2
INVARIANTS Prefix AtEnd InOrder Usable
CHECK_DEADLOCK FALSE
