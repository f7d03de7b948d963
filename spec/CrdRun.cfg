SPECIFICATION Spec
CONSTANTS MaxPkgs = 3
 SkipLast = TRUE
INVARIANTS VersionsAreTheirOwn SkippedKindsAreNotWritten FailsExactly NamesByTheirMarkers
CHECK_DEADLOCK FALSE
