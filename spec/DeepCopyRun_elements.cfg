SPECIFICATION Spec
CONSTANTS Depth = 2
 MaxLen = 2
 Steps = 2
 Mode = "elements"
INVARIANTS Invisible
CHECK_DEADLOCK FALSE
