SPECIFICATION Spec
CONSTANTS MaxLines = 3
 MaxLen = 2
 Zooms = {1, 2, 3}
INVARIANTS Drawn Partly Once
CHECK_DEADLOCK FALSE
