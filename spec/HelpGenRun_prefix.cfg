INIT Init
NEXT Next
INVARIANT Right
CHECK_DEADLOCK FALSE
CONSTANTS
 Variant = "prefix"
 Max = 5
