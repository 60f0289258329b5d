SPECIFICATION SpecPoses
CONSTANTS R = 1
 Interval = 3
 TMax = 3
INVARIANTS Corrected Undone
CHECK_DEADLOCK FALSE
