SPECIFICATION Spec
CONSTANTS MaxDumps = 2
 Vals = {20, 64}
INVARIANTS Faithful Numbered
CHECK_DEADLOCK FALSE
