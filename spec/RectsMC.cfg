SPECIFICATION Spec
CONSTANT N = 3
INVARIANTS MeetIsCommon Symmetric AreaCounts Split LineCrossings
CHECK_DEADLOCK FALSE
