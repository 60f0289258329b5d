SPECIFICATION SpecMaps
CONSTANTS R = 1
 Interval = 3
 TMax = 20
INVARIANTS Spaced Ordered
CHECK_DEADLOCK FALSE
