CONSTANT MaxItems = 3
INIT AInit
NEXT ANext
INVARIANT Good
INVARIANT Incremental
CHECK_DEADLOCK FALSE
