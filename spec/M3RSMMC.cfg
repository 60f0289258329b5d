SPECIFICATION Spec
CONSTANTS K = 1 RotLo = 0 Rot = 1 Vals = {0, 1} Slacks = {0, 1}
INVARIANTS NeverDry Right NotLost
CHECK_DEADLOCK FALSE
PROPERTIES Found
