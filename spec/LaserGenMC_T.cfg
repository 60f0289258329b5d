SPECIFICATION Spec
CONSTANTS R = 3 Step = 90
INVARIANTS MetIsMaybe First Alone Ahead Quarter4
CHECK_DEADLOCK FALSE
