-------------------------------- MODULE Help --------------------------------
(* Markers, their arguments, and what the help says about them (pkg/markers   *)
(* registry and definitions, pkg/genall/help).                                *)
(* A definition: [name, target, struct, fields, type, opt]; a type: [k, e]; a tag  *)
(* is absent or the one text of the field's marker tag.                       *)
EXTENDS Lex
Scalars == [int |-> "int", int32 |-> "int", namedint |-> "int", float64 |-> "float64", string |-> "string", namedstring |-> "string", bool |-> "bool", any |-> "any", raw |-> "raw"]
RECURSIVE Usable(_)
Usable(t) == \/ t.k \in DOMAIN Scalars
             \/ t.k \in {"slice", "map"} /\ Usable(t.e[1])
             \/ t.k = "ptr" /\ t.e[1].k \notin {"ptr", "any", "raw"} /\ Usable(t.e[1])
RECURSIVE TypeText(_)
TypeText(t) == IF t.k = "ptr" THEN TypeText(t.e[1]) ELSE IF t.k = "slice" THEN "[]" \o TypeText(t.e[1])
               ELSE IF t.k = "map" THEN "map[string]" \o TypeText(t.e[1]) ELSE Scalars[t.k]

\* The parts of a tag: the name of the argument, then options.
RECURSIVE Split(_, _)
Split(s, i) == IF i > Len(s) THEN <<s>> ELSE IF Char(s, i) = "," THEN <<SubSeq(s, 1, i - 1)>> \o Split(SubSeq(s, i + 1, Len(s)), 1) ELSE Split(s, i + 1)
Exported(f) == LET c == Char(f.name, 1) IN Lower1(c) # c
ArgName(f) == LET own == IF f.tag = <<>> THEN "" ELSE Split(f.tag[1], 1)[1]
              IN IF own # "" THEN own ELSE Lower1(Char(f.name, 1)) \o SubSeq(f.name, 2, Len(f.name))
Optional(f) == f.type.k = "ptr" \/ (f.tag # <<>> /\ \E i \in 2..Len(Split(f.tag[1], 1)) : Split(f.tag[1], 1)[i] = "optional")
\* [arg, field, type, opt]: the arguments a definition accepts.
Args(d) == IF d.struct THEN { [arg |-> ArgName(f), field |-> f.name, type |-> TypeText(f.type), opt |-> Optional(f)] : f \in {g \in Rng(d.fields) : Exported(g)} }
           ELSE { [arg |-> "", field |-> IF d.type.k = "any" THEN "Value" ELSE "", type |-> TypeText(d.type), opt |-> d.opt \/ d.type.k = "ptr"] }
Makeable(d) == IF d.struct THEN \A f \in Rng(d.fields) : Exported(f) => Usable(f.type) /\ f.type.k # "raw" ELSE Usable(d.type)

\* The registry: for every target and name the definition registered last.
Slots(ops, defs) == {<<defs[ops[i]].target, defs[ops[i]].name>> : i \in DOMAIN ops}
Holder(ops, defs, s) == ops[CHOOSE i \in DOMAIN ops : <<defs[ops[i]].target, defs[ops[i]].name>> = s /\ \A j \in DOMAIN ops : j > i => <<defs[ops[j]].target, defs[ops[j]].name>> # s]
Registered(ops, defs) == {Holder(ops, defs, s) : s \in Slots(ops, defs)}

\* What is documented of a definition with help h (absent or one).
FieldText(h, f) == IF h = <<>> THEN <<"", "">> ELSE LET m == {x \in Rng(h[1].fields) : x[1] = f} IN IF m = {} THEN <<"", "">> ELSE LET x == CHOOSE y \in m : TRUE IN <<x[2], x[3]>>
Doc(d, h) == [name |-> d.name, target |-> d.target, summary |-> IF h = <<>> THEN "" ELSE h[1].summary, details |-> IF h = <<>> THEN "" ELSE h[1].details,
              category |-> IF h = <<>> THEN "" ELSE h[1].category, deprecated |-> IF h = <<>> THEN <<>> ELSE h[1].deprecated,
              fields |-> {<<a.arg, a.type, a.opt, FieldText(h, a.field)[1], FieldText(h, a.field)[2]>> : a \in Args(d)}]
\* The groups of the help about options: by what the option says, not by category.
Colons(s) == Cardinality({i \in 1..Len(s) : Char(s, i) = ":"})
OptionGroup(d) == IF Colons(d.name) = 0 THEN (IF d.name = "paths" THEN "generic" ELSE "generators") ELSE IF Colons(d.name) = 1 THEN "output rules (optionally as output:<generator>:...)" ELSE ""

\* A use of a marker gives arguments, each well or badly typed.
Accepted(d, given) == LET as == Args(d) IN
  /\ \A g \in Rng(given) : g[2] /\ \E a \in as : a.arg = g[1]
  /\ \A a \in as : a.opt \/ \E g \in Rng(given) : g[1] = a.arg

\* The short form of a marker in summaries.
RECURSIVE Syntax(_, _, _)
Syntax(as, sep, i) == IF i > Len(as) THEN "" ELSE
  (IF as[i][3] THEN "[" \o sep \o as[i][1] \o "=<" \o as[i][2] \o ">]" ELSE sep \o as[i][1] \o "=<" \o as[i][2] \o ">") \o Syntax(as, ",", i + 1)
Short(doc) == "+" \o doc.name \o Syntax(doc.fields, IF Len(doc.fields) = 1 /\ doc.fields[1][1] = "" THEN "" ELSE ":", 1)
\* What is printed, as words; W gives the words of a text.
Favored(doc, W(_)) == IF doc.deprecated = <<>> \/ doc.deprecated = <<"">> THEN <<>> ELSE <<"(use">> \o W(doc.deprecated[1])
\* the last word is closed by a parenthesis
Closed(ws) == IF ws = <<>> THEN <<>> ELSE SubSeq(ws, 1, Len(ws) - 1) \o <<ws[Len(ws)] \o ")">>
Said(doc, W(_)) == Closed(Favored(doc, W)) \o W(doc.summary)
Row(doc, W(_)) == <<Short(doc)>> \o W(doc.target) \o Said(doc, W)
Anonymous(doc) == Len(doc.fields) = 1 /\ doc.fields[1][1] = ""
Detailed(doc, full, W(_)) ==
  <<"+" \o doc.name>> \o W(doc.target)
  \o (IF Anonymous(doc) THEN <<Syntax(doc.fields, "", 1)>> \o Said(doc, W) \o (IF full THEN W(doc.details) ELSE <<>>)
      ELSE Said(doc, W) \o (IF full THEN W(doc.details) ELSE <<>>)
           \o Concat([i \in 1..Len(doc.fields) |-> <<Syntax(<<doc.fields[i]>>, "", 1)>> \o W(doc.fields[i][4]) \o (IF full THEN W(doc.fields[i][5]) ELSE <<>>)]))
=============================================================================
