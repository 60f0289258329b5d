SPECIFICATION Spec
CONSTANTS Depth = 7
 Scores = {0, 1, 2}
INVARIANTS FirstMaximum NeverWorse Rising LastTold
CHECK_DEADLOCK FALSE
