------------------------------- MODULE Output -------------------------------
(* Where an output rule puts an artifact. An artifact has a name and, if it   *)
(* belongs to a package, the package's directory (pkg, a sequence of length 0 *)
(* or 1). Places are paths; Stdout and Nothing stand for no file.             *)
EXTENDS Options
Stdout == "<stdout>"
Nothing == "<nothing>"
Join(d, n) == IF d \in {"", "."} THEN n ELSE d \o "/" \o n
Place(rule, art) ==
  CASE rule.kind = "none" -> Nothing
    [] rule.kind = "stdout" -> Stdout
    [] rule.kind = "dir" -> Join(rule.config, art.name)
    [] OTHER -> IF art.pkg = <<>> THEN Join(rule.config, art.name)
                ELSE IF rule.code # "" THEN Join(rule.code, art.name) ELSE Join(art.pkg[1], art.name)
=============================================================================
