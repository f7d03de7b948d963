SPECIFICATION Spec
CONSTANT Wide = TRUE
INVARIANTS SaysTheSame ClashReported Merged
CHECK_DEADLOCK FALSE
