SPECIFICATION Spec
CONSTANTS N = 1
INVARIANTS NeverWorse Allowed Whole
CHECK_DEADLOCK FALSE
