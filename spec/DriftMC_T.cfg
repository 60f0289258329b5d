SPECIFICATION Spec
CONSTANTS N = 5
 S = 1
INVARIANTS Classified Undirected RestIsOther DriftStays BestPlace TwoPoints
CHECK_DEADLOCK FALSE
