SPECIFICATION Spec
CONSTANTS R = 3
 VMax = 7
 S = 3
 Far = 5
 Scans = 2
INVARIANTS AnyOrder Between Way
CHECK_DEADLOCK FALSE
