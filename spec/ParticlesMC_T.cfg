SPECIFICATION Spec
CONSTANTS Scans = 5
 Worlds = 2
 Master = FALSE
INVARIANTS Own Apart Gated FirstIsMapped MasterAlways ImpossibleAddsNothing
CHECK_DEADLOCK FALSE
