SPECIFICATION Spec
CONSTANTS
 N = 3
 Callers = 2
 Mode = "nolock"
 Extra = FALSE
 History = FALSE
INVARIANTS Once DepsFirst Needed CallDone Prefix Whole
CHECK_DEADLOCK TRUE
