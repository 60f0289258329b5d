SPECIFICATION Spec
CONSTANTS U = 3
          N = 7
INVARIANTS LengthBound Right
CHECK_DEADLOCK FALSE
