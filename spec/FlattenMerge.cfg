SPECIFICATION Spec
CONSTANT Wide = FALSE
INVARIANTS SaysTheSame ClashReported Merged
CHECK_DEADLOCK FALSE
