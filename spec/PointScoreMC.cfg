SPECIFICATION Spec
CONSTANTS U = 2 N = 2 Vals = {0, 16, 64}
INVARIANTS Range01 Order Shares PointAgrees Local WindowRule
CHECK_DEADLOCK FALSE
