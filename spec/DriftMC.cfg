SPECIFICATION Spec
CONSTANTS N = 3
 S = 2
INVARIANTS Classified Undirected RestIsOther DriftStays BestPlace TwoPoints
CHECK_DEADLOCK FALSE
