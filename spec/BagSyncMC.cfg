SPECIFICATION Spec
CONSTANTS N = 5
 TMax = 3
 Links = 1
INVARIANTS Prefix AtEnd InOrder Usable
CHECK_DEADLOCK FALSE
PROPERTIES Drains
