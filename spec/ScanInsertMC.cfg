SPECIFICATION Spec
CONSTANTS U = 2
          N = 5
          MaxBeams = 2
INVARIANTS Fits Margins
CHECK_DEADLOCK FALSE
