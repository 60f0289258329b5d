SPECIFICATION Spec
CONSTANTS MaxLines = 2
 MaxLen = 2
 Zooms = {1, 2}
INVARIANTS Drawn Partly Once
CHECK_DEADLOCK FALSE
