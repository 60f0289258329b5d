SPECIFICATION Spec
CONSTANTS Maps = {1, 2}
 Files = {1}
 Vals = {1}
 MaxHist = 3
INVARIANTS IsItsHistory SameStateSameMap
CHECK_DEADLOCK FALSE
