SPECIFICATION Spec
CONSTANTS N = 2
INVARIANTS NeverWorse Allowed Whole
CHECK_DEADLOCK FALSE
