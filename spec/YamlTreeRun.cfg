SPECIFICATION Spec
CONSTANTS
 Keys = {"a", "b"}
 Depth = 1
 Edits = 3
INVARIANTS ReadBack Gone Apartness Order Errors Missing Twice
CHECK_DEADLOCK FALSE
