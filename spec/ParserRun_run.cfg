SPECIFICATION Spec
CONSTANT Again = FALSE
INVARIANTS Closed Complete One Idempotent
PROPERTY Stays
CHECK_DEADLOCK FALSE
