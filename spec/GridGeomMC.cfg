SPECIFICATION Spec
CONSTANTS U = 3
          N = 7
INVARIANTS OneSquare Bordered Inner
CHECK_DEADLOCK FALSE
