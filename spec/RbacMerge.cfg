SPECIFICATION Spec
CONSTANT MaxMarkers = 3
INVARIANTS NothingLostOrGained Confluent Canonical
CHECK_DEADLOCK FALSE
