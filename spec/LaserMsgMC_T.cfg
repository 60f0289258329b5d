SPECIFICATION Spec
CONSTANT N = 5
INVARIANTS Valid InOrder Obstacles OnlyObstacles Free Skipping
CHECK_DEADLOCK FALSE
