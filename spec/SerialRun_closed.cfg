INIT Init
NEXT Next
INVARIANT Agree
CHECK_DEADLOCK FALSE
CONSTANTS
 Variant = "closed"
 Depth = 1
