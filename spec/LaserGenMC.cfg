SPECIFICATION Spec
CONSTANTS R = 2 Step = 150
INVARIANTS MetIsMaybe First Alone Ahead Quarter4
CHECK_DEADLOCK FALSE
