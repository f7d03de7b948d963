SPECIFICATION Spec
CONSTANT MaxOpts = 5
INVARIANTS RejectedExactly MeansOneThing OrderDoesNotMatter
CHECK_DEADLOCK FALSE
