SPECIFICATION Spec
CONSTANTS
 N = 3
 Callers = 3
 Mode = "right"
 Extra = TRUE
 History = TRUE
INVARIANTS Once DepsFirst Needed CallDone Prefix Whole
CHECK_DEADLOCK TRUE
