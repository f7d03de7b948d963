SPECIFICATION Spec
CONSTANTS Names = {"A", "B", "C"}
 Asks = 2
 Careful = TRUE
INVARIANTS Canonical CacheRight Finite
CHECK_DEADLOCK FALSE
