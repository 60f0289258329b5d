SPECIFICATION Spec
CONSTANT N = 3
INVARIANTS Valid InOrder Obstacles OnlyObstacles Free Skipping
CHECK_DEADLOCK FALSE
