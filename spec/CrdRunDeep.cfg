SPECIFICATION Spec
CONSTANTS MaxPkgs = 4
 SkipLast = TRUE
INVARIANTS VersionsAreTheirOwn SkippedKindsAreNotWritten FailsExactly NamesByTheirMarkers
CHECK_DEADLOCK FALSE
