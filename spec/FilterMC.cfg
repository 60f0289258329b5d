SPECIFICATION Spec
CONSTANTS Num = 3
 Scans = 2
 Sxy = 0
INVARIANTS SameNumber MapsBuilt Descend ShownSurvives StillKept Apart NeverLoose
CHECK_DEADLOCK FALSE
