SPECIFICATION Spec
CONSTANT Depth = 1
CHECK_DEADLOCK FALSE
