INIT RInit
NEXT RNext
INVARIANT Roundtrip
INVARIANT Mistakes
CHECK_DEADLOCK FALSE
