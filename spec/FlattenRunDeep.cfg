SPECIFICATION Spec
CONSTANTS Names = {"A", "B", "C", "D"}
 Asks = 1
 Careful = TRUE
INVARIANTS Canonical CacheRight Finite
CHECK_DEADLOCK FALSE
