SPECIFICATION Spec
CONSTANTS Handles = {1, 2}
 Vals = {1}
 MaxLog = 2
 Hi = 1
INVARIANT Contained
PROPERTY Frame
CHECK_DEADLOCK FALSE
