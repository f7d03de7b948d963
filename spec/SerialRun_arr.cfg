INIT Init
NEXT Next
INVARIANT Agree
CHECK_DEADLOCK FALSE
CONSTANTS
 Variant = "arr"
 Depth = 1
