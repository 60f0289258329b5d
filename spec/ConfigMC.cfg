SPECIFICATION Spec
CONSTANT Depth = 2
INVARIANTS Foreign Local Refuses Whole
CHECK_DEADLOCK FALSE
