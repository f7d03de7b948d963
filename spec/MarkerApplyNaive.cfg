SPECIFICATION Spec
CONSTANTS MaxMarkers = 3 Staged = FALSE
INVARIANT OrderFree
INVARIANT AllReported
CHECK_DEADLOCK FALSE
