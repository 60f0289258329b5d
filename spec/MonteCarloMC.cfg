SPECIFICATION Spec
CONSTANTS Fal = 7
 Tot = 30
INVARIANTS Bounded HalvingsCost
PROPERTIES Ends
CHECK_DEADLOCK FALSE
