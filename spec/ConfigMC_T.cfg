SPECIFICATION Spec
CONSTANT Depth = 3
INVARIANTS Foreign Local Refuses Whole
CHECK_DEADLOCK FALSE
