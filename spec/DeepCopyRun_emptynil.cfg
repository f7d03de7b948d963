SPECIFICATION Spec
CONSTANTS Depth = 2
 MaxLen = 2
 Steps = 2
 Mode = "emptynil"
INVARIANTS Equal
CHECK_DEADLOCK FALSE
