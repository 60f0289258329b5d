SPECIFICATION Spec
CONSTANTS S = 4
          M = 3
INVARIANTS InRange Symmetric FreeHalf Opposite FromOutside Touching
CHECK_DEADLOCK FALSE
