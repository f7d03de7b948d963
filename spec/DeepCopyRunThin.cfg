SPECIFICATION Spec
CONSTANTS Depth = 3
 MaxLen = 1
 Steps = 2
 Mode = "deep"
INVARIANTS Invisible Equal Apart Deep
CHECK_DEADLOCK FALSE
