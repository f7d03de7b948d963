SPECIFICATION Spec
CONSTANTS
 Keys = {"a", "b"}
 Depth = 2
 Edits = 1
INVARIANTS ReadBack Gone Apartness Order Errors Missing Twice
CHECK_DEADLOCK FALSE
