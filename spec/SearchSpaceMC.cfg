SPECIFICATION Spec
CONSTANTS Side = 3
 Ends = {2}
 Reaches = {700}
 Grains = {350, 625}
 Vals = {1, 4}
INVARIANTS AsSpecified Sane Covers
CHECK_DEADLOCK FALSE
