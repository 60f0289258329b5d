SPECIFICATION Spec
CONSTANTS Scans = 4
 Worlds = 2
 Master = TRUE
INVARIANTS Own Apart Gated FirstIsMapped MasterAlways ImpossibleAddsNothing
CHECK_DEADLOCK FALSE
