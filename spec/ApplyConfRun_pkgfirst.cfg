SPECIFICATION Spec
CONSTANTS Strip = TRUE
OnlyObjects = TRUE
PkgFirst = TRUE
INVARIANTS Right Closed
CHECK_DEADLOCK FALSE
