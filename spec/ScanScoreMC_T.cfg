SPECIFICATION Spec
CONSTANTS N = 2 R = 2
INVARIANTS Scores01 UnknownIffEmpty Reorder KeptInOrder AllUsed Turn Directions
CHECK_DEADLOCK FALSE
