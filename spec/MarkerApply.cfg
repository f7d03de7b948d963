SPECIFICATION Spec
CONSTANTS MaxMarkers = 3 Staged = TRUE
INVARIANT OrderFree
INVARIANT AllReported
CHECK_DEADLOCK FALSE
