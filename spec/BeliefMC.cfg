SPECIFICATION Spec
CONSTANTS D = 3
 Depth = 3
INVARIANTS NonNegative Known OrderFree Ignorance
PROPERTY ClosedForm
CHECK_DEADLOCK FALSE
