SPECIFICATION Spec
CONSTANTS Sorted = TRUE
Hidden = TRUE
Forget = TRUE
MaxRuns = 2
INVARIANTS Function Latest
CHECK_DEADLOCK FALSE
