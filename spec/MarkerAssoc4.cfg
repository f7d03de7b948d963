CONSTANT MaxItems = 4
INIT AInit
NEXT ANext
INVARIANT Good
INVARIANT Incremental
CHECK_DEADLOCK FALSE
