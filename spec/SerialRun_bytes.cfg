INIT Init
NEXT Next
INVARIANT Agree
CHECK_DEADLOCK FALSE
CONSTANTS
 Variant = "bytes"
 Depth = 1
