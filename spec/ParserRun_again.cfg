SPECIFICATION Spec
CONSTANT Again = TRUE
INVARIANTS Closed Complete One Idempotent
PROPERTY Stays
CHECK_DEADLOCK FALSE
