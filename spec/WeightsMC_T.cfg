SPECIFICATION Spec
CONSTANTS Num = 4
 Values = {0, 1, 2, 5, 8}
INVARIANTS StaysDistribution EqualKept Degenerate FitSurvive ScaleFree
CHECK_DEADLOCK TRUE
