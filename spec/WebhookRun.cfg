SPECIFICATION Spec
CONSTANT MaxMarkers = 2
INVARIANTS FailsIffInvalid EveryMarkerOnce SortedInPackage OnlyOneClient NamedRight
CHECK_DEADLOCK FALSE
