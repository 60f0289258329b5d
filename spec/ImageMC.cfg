SPECIFICATION Spec
CONSTANTS MaxDumps = 2
 Vals = {0, 64}
INVARIANTS Faithful Numbered
CHECK_DEADLOCK FALSE
