--------------------------- MODULE BuildTagsConf ---------------------------
(* A run of the command with tags: packages with files (name, test, suffix,   *)
(* when, resource, types), the resources its role names per package, and the   *)
(* types for which copying methods were made.                                  *)
EXTENDS Conf, BuildTags
Judge(o) ==
  LET tags == Tags(o.given, o.platform)
      Want(p) == {f.resource : f \in Files(p, tags)}
      Types(p) == UNION {Rng(f.types) : f \in Files(p, tags)}
  IN (IF o.failed THEN {<<"fails", o.why>>} ELSE {})
     \cup {<<"files read", p.name \o " " \o ToString(Rng(p.got)) \o " instead of " \o ToString(Want(p))>> : p \in {x \in Rng(o.packages) : Rng(x.got) # Want(x)}}
     \cup {<<"types copied", p.name \o " " \o ToString(Rng(p.copied)) \o " instead of " \o ToString(Types(p))>> : p \in {x \in Rng(o.packages) : Rng(x.copied) # Types(x)}}
Next == ~done /\ done' = TRUE /\ l' = l /\ Report(l, Judge(Trace[l]))
=============================================================================
