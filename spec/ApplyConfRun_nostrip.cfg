SPECIFICATION Spec
CONSTANTS Strip = FALSE
OnlyObjects = TRUE
PkgFirst = FALSE
INVARIANTS Right Closed
CHECK_DEADLOCK FALSE
