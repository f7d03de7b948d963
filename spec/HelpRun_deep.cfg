INIT Init
NEXT Next
CONSTANTS Names = {1, 2}
Targets = {1, 2, 3}
Cats = {1, 2}
Tie = TRUE
INVARIANTS OneListing Complete
CHECK_DEADLOCK FALSE
