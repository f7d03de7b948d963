SPECIFICATION Spec
CONSTANTS
 GKs = {"g", "h"}
 Vs = {"v1", "v2"}
 MaxVersions = 1
INVARIANTS Right Stable Once Kept
CHECK_DEADLOCK FALSE
