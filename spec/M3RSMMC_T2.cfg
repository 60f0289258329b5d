SPECIFICATION Spec
CONSTANTS K = 2 RotLo = 0 Rot = 0 Vals = {0, 1, 2} Slacks = {0, 1}
INVARIANTS NeverDry Right NotLost
CHECK_DEADLOCK FALSE
PROPERTIES Found
