SPECIFICATION Spec
CONSTANTS MaxPkgs = 2
 SkipLast = FALSE
INVARIANTS VersionsAreTheirOwn SkippedKindsAreNotWritten FailsExactly NamesByTheirMarkers
CHECK_DEADLOCK FALSE
