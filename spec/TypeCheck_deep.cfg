SPECIFICATION Spec
CONSTANTS
 N = 4
 Callers = 2
 Mode = "right"
 Extra = TRUE
 History = FALSE
INVARIANTS Once DepsFirst Needed CallDone Prefix Whole
CHECK_DEADLOCK TRUE
