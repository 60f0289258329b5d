SPECIFICATION Spec
CONSTANTS Handles = {1, 2}
 TS = 2
 MaxTiles = 2
 Vals = {1}
 MaxLog = 1
INVARIANT UnknownStaysUnknown
PROPERTY Refines
CHECK_DEADLOCK FALSE
CONSTRAINT FewCells
