SPECIFICATION Spec
CONSTANTS N = 3
INVARIANTS Source IncludedFirst Idempotent
PROPERTY Kept
CHECK_DEADLOCK FALSE
