----------------------------- MODULE BuildTags -----------------------------
(* Which files of a package are read: those Go would build with the tags      *)
(* given on this platform, tests apart.  A constraint is a tree [op, tag,     *)
(* args]; a file name may end in an operating system and an architecture.      *)
EXTENDS Lex
RECURSIVE Sat(_, _)
Sat(e, tags) ==
  CASE e.op = "tag" -> e.tag \in tags
    [] e.op = "not" -> ~Sat(e.args[1], tags)
    [] e.op = "and" -> \A i \in 1..Len(e.args) : Sat(e.args[i], tags)
    [] e.op = "or" -> \E i \in 1..Len(e.args) : Sat(e.args[i], tags)
\* default is what the command takes without the flag
Tags(given, platform) == Rng(platform) \cup IF given = <<>> THEN {"ignore_autogenerated"} ELSE Rng(given[1])
Read(f, tags) == /\ ~f.test
                 /\ \A s \in Rng(f.suffix) : s \in tags          \* name_linux_amd64.go
                 /\ \A e \in Rng(f.when) : Sat(e, tags)          \* one constraint or none
Files(p, tags) == {f \in Rng(p.files) : Read(f, tags)}
=============================================================================
