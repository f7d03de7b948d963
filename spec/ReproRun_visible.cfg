SPECIFICATION Spec
CONSTANTS Sorted = TRUE
Hidden = FALSE
Forget = TRUE
MaxRuns = 3
INVARIANTS Function Latest
CHECK_DEADLOCK FALSE
