SPECIFICATION Spec
CONSTANTS Depth = 2
 MaxLen = 2
 Steps = 2
 Mode = "deep"
INVARIANTS Invisible Equal Apart Deep
CHECK_DEADLOCK FALSE
