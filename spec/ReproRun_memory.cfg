SPECIFICATION Spec
CONSTANTS Sorted = TRUE
Hidden = TRUE
Forget = FALSE
MaxRuns = 2
INVARIANTS Function Latest
CHECK_DEADLOCK FALSE
