SPECIFICATION Spec
CONSTANT MaxOpts = 4
INVARIANTS RejectedExactly MeansOneThing OrderDoesNotMatter
CHECK_DEADLOCK FALSE
