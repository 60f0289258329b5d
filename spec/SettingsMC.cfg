SPECIFICATION Spec
CONSTANTS N = 2
INVARIANTS Source IncludedFirst Idempotent
PROPERTY Kept
CHECK_DEADLOCK FALSE
