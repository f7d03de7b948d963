SPECIFICATION SpecG
CONSTANTS
 N = 4
 Callers = 2
 Mode = "right"
 Extra = TRUE
 History = TRUE
INVARIANTS Whole Emit
CHECK_DEADLOCK FALSE
