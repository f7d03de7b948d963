SPECIFICATION Spec
CONSTANTS MaxMarkers = 4 Staged = TRUE
INVARIANT OrderFree
INVARIANT AllReported
CHECK_DEADLOCK FALSE
