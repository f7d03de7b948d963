SPECIFICATION Spec
CONSTANTS Strip = TRUE
OnlyObjects = FALSE
PkgFirst = FALSE
INVARIANTS Right Closed
CHECK_DEADLOCK FALSE
