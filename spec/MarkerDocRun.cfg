CONSTANT MaxLines = 4
INIT DInit
NEXT DNext
INVARIANT Subsequence
INVARIANT NoMarkers
INVARIANT AllThere
INVARIANT NoTodo
CHECK_DEADLOCK FALSE
