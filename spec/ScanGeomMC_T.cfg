SPECIFICATION Spec
CONSTANTS R = 6
INVARIANTS Rigid Undo Compose Inside EitherWay Shifted Nearby Circle
CHECK_DEADLOCK FALSE
