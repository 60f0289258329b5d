SPECIFICATION Spec
CONSTANTS Side = 3
 Ends = {1, 2}
 Reaches = {1000, 500}
 Grains = {350, 500, 625}
 Vals = {1, 4}
INVARIANTS AsSpecified Sane Covers
CHECK_DEADLOCK FALSE
