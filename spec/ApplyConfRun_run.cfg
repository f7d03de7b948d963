SPECIFICATION Spec
CONSTANTS Strip = TRUE
OnlyObjects = TRUE
PkgFirst = FALSE
INVARIANTS Right Closed
CHECK_DEADLOCK FALSE
