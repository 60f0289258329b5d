SPECIFICATION Spec
CONSTANTS R = 2
 VMax = 4
 S = 2
 Far = 3
 Scans = 3
INVARIANTS AnyOrder Between Way
CHECK_DEADLOCK FALSE
