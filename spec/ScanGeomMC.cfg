SPECIFICATION Spec
CONSTANTS R = 3
INVARIANTS Rigid Undo Compose Inside EitherWay Shifted Nearby Circle
CHECK_DEADLOCK FALSE
