SPECIFICATION Spec
CONSTANTS Num = 3
 Values = {0, 1, 2, 8}
INVARIANTS StaysDistribution EqualKept Degenerate FitSurvive ScaleFree
CHECK_DEADLOCK TRUE
