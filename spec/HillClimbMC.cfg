SPECIFICATION Spec
CONSTANTS R = 4
 Levels = 4
 MaxFailed = 3
INVARIANTS NeverWorse LocallyBest StepsHalve
PROPERTIES Ends Monotone
CHECK_DEADLOCK FALSE
