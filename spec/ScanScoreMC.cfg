SPECIFICATION Spec
CONSTANTS N = 2 R = 1
INVARIANTS Scores01 UnknownIffEmpty Reorder KeptInOrder AllUsed Turn Directions
CHECK_DEADLOCK FALSE
