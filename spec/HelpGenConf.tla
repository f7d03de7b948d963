---------------------------- MODULE HelpGenConf ----------------------------
(* A package given to helpgen: types (name, marked, category, block, lines,   *)
(* fields), whether a file was made, its head, the header asked for, and the  *)
(* help the types have once compiled.                                         *)
EXTENDS Conf, HelpGen
Want(t) == [summary |-> Help(t.name, t.block, t.lines).summary, details |-> Help(t.name, t.block, t.lines).details, category |-> t.category]
FieldsOf(t) == {<<f.name, Help(f.name, f.block, f.lines).summary, Help(f.name, f.block, f.lines).details>> : f \in Rng(t.fields)}
Has(o, t) == \E h \in Rng(o.helps) : h.name = t.name
Of(o, t) == CHOOSE h \in Rng(o.helps) : h.name = t.name
Judge(o) ==
  LET marked == {t \in Rng(o.types) : t.marked}
  IN (IF o.made = (marked # {}) THEN {} ELSE {<<"file made or not", o.id>>})
     \cup (IF ~o.made \/ IsPrefixStr(Code2("//go:build !ignore_autogenerated\n\n", Join(o.pieces, o.year), "// Code generated by helpgen. DO NOT EDIT.\n\npackage " \o o.id \o "\n"), o.text) THEN {} ELSE {<<"does not start with its header", SubSeq(o.text, 1, 200)>>})
     \cup {<<"has help or not", t.name>> : t \in {x \in Rng(o.types) : x.marked # Has(o, x)}}
     \cup {<<"help is not the documentation", ToString(Want(t)) \o ToString(Of(o, t))>> : t \in {x \in marked : Has(o, x) /\
             (Of(o, x).summary # Want(x).summary \/ Of(o, x).details # Want(x).details \/ Of(o, x).category # Want(x).category \/ Of(o, x).deprecated)}}
     \cup {<<"help of the fields", ToString(FieldsOf(t)) \o ToString(Of(o, t).fields)>> : t \in {x \in marked : Has(o, x) /\ FieldsOf(x) # Rng(Of(o, x).fields)}}
Next == ~done /\ done' = TRUE /\ l' = l /\ Report(l, Judge(Trace[l]))
=============================================================================
