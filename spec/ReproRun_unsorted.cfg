SPECIFICATION Spec
CONSTANTS Sorted = FALSE
Hidden = TRUE
Forget = TRUE
MaxRuns = 2
INVARIANTS Function Latest
CHECK_DEADLOCK FALSE
