INIT ConfInit
NEXT Next
CHECK_DEADLOCK FALSE
