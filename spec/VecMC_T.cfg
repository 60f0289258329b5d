SPECIFICATION Spec
CONSTANTS N = 1
          Steps = 3
INVARIANTS There Home Laws
PROPERTY Arrives
CHECK_DEADLOCK FALSE
