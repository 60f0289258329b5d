SPECIFICATION Spec
CONSTANTS W = 2
 H = 1
 Levels = 2
 Stride = 2
INVARIANTS NeverWorse NoStepBetter
PROPERTIES Ends
CHECK_DEADLOCK FALSE
