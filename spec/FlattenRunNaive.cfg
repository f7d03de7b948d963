SPECIFICATION Spec
CONSTANTS Names = {"A", "B", "C"}
 Asks = 2
 Careful = FALSE
INVARIANTS Canonical CacheRight Finite
CHECK_DEADLOCK FALSE
