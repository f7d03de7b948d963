INIT Init
NEXT Next
INVARIANT Right
CHECK_DEADLOCK FALSE
CONSTANT Variant = "nested"
