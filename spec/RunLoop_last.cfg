SPECIFICATION Spec
CONSTANTS
 Gens = 3
 Pkgs = 2
 Mode = "last"
INVARIANTS Verdict Complete Nothing

CHECK_DEADLOCK FALSE
