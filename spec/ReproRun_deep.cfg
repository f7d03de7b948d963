SPECIFICATION Spec
CONSTANTS Sorted = TRUE
Hidden = TRUE
Forget = TRUE
MaxRuns = 4
INVARIANTS Function Latest
CHECK_DEADLOCK FALSE
