SPECIFICATION Spec
CONSTANTS
 Gens = 4
 Pkgs = 2
 Mode = "run"
INVARIANTS Verdict Complete Nothing
PROPERTIES Ends
CHECK_DEADLOCK FALSE
