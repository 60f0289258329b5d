SPECIFICATION Spec
CONSTANTS N = 1
          Steps = 2
INVARIANTS There Home Laws
PROPERTY Arrives
CHECK_DEADLOCK FALSE
