--------------------------- MODULE MarkerCollect ---------------------------
(* To which declaration the marker comments of a file belong.                  *)
(*                                                                             *)
(* A file is [pre, doc, items]: comment blocks before the package clause, the  *)
(* package documentation, and the top level items in source order.  Items:     *)
(*   [k "block", ms]                      a comment block standing on its own  *)
(*   [k "type", name, doc, body, isStruct, trail]                              *)
(*   [k "group", doc, body]               type ( ... )                         *)
(*   [k "other", doc, inside, trail]      func, var, const, import             *)
(* Struct bodies consist of blocks and [k "field", names, doc, inner, trail];  *)
(* trail are comments at the end of a line, inside comments in a body.         *)
(* A marker is [text, pos]; definitions are those of MarkerParse plus target   *)
(* (0 package, 1 type, 2 field).                                               *)
EXTENDS MarkerParse

For(defs, target) == SelectSeq(defs, LAMBDA d : d.target = target)
Known(defs, target, m) == Lookup(For(defs, target), m.text) # 0
\* a marker in the block before a type belongs to the package if only the package knows it
GoesToPkg(defs, m) == ~Known(defs, 1, m) /\ Known(defs, 0, m)

(* Reading the items in order: st is [pkg, nodes, pend], pend the last free    *)
(* block not yet claimed by a declaration.                                     *)
Start == [pkg |-> <<>>, nodes |-> <<>>, pend |-> <<>>]
Node(t, name, ms) == [target |-> t, name |-> name, ms |-> ms]
RECURSIVE Body(_, _, _, _), BodyFrom(_, _, _, _, _)
FieldNodes(tname, f, pend) == [n \in 1..Len(f.names) |-> Node(2, tname \o "." \o f.names[n], pend \o f.doc)]
\* the nodes of a struct body; blocks that are not the closest one before a field belong to nothing
BodyFrom(tname, body, n, pend, acc) ==
  IF n > Len(body) THEN acc
  ELSE IF body[n].k = "block" THEN BodyFrom(tname, body, n + 1, body[n].ms, acc)
  ELSE BodyFrom(tname, body, n + 1, <<>>, acc \o FieldNodes(tname, body[n], pend))
Body(tname, body, n, pend) == BodyFrom(tname, body, n, pend, <<>>)
TypeNodes(defs, ty, pend) ==
  <<Node(1, ty.name, SelectSeq(pend, LAMBDA m : ~GoesToPkg(defs, m)) \o ty.doc)>> \o
  (IF ty.isStruct THEN Body(ty.name, ty.body, 1, <<>>) ELSE <<>>)
ToPkg(defs, pend) == SelectSeq(pend, LAMBDA m : GoesToPkg(defs, m))
RECURSIVE Group(_, _, _, _)
Group(defs, body, n, st) ==  \* inside type ( ... ): free blocks that no type claims belong to nothing
  IF n > Len(body) THEN [st EXCEPT !.pend = <<>>]
  ELSE IF body[n].k = "block" THEN Group(defs, body, n + 1, [st EXCEPT !.pend = body[n].ms])
  ELSE Group(defs, body, n + 1, [pkg |-> st.pkg \o ToPkg(defs, st.pend), nodes |-> st.nodes \o TypeNodes(defs, body[n], st.pend), pend |-> <<>>])
Step(defs, st, it) ==
  CASE it.k = "block" -> [st EXCEPT !.pkg = st.pkg \o st.pend, !.pend = it.ms]
    [] it.k = "type"  -> [pkg |-> st.pkg \o ToPkg(defs, st.pend), nodes |-> st.nodes \o TypeNodes(defs, it, st.pend), pend |-> <<>>]
    [] it.k = "group" -> Group(defs, it.body, 1, [st EXCEPT !.pkg = st.pkg \o st.pend, !.pend = <<>>])
    [] it.k = "other" -> [st EXCEPT !.pkg = st.pkg \o st.pend, !.pend = <<>>]
RECURSIVE Steps(_, _, _, _)
Steps(defs, st, items, n) == IF n > Len(items) THEN [st EXCEPT !.pkg = st.pkg \o st.pend, !.pend = <<>>]
                             ELSE Steps(defs, Step(defs, st, items[n]), items, n + 1)
File(defs, f) == Steps(defs, [Start EXCEPT !.pkg = Concat(f.pre) \o f.doc], f.items, 1)

\* ---------------------------------------------------------------- values
RECURSIVE Values(_, _)
Values(defs, ms) == \* what well formed markers of registered names mean, in order
  IF ms = <<>> THEN <<>>
  ELSE LET n == Lookup(defs, Head(ms).text)
           r == ParseMarker(defs[n], Head(ms).text)
       IN (IF n # 0 /\ r.e = 0 THEN <<[def |-> defs[n].name, vals |-> r.vals]>> ELSE <<>>) \o Values(defs, Tail(ms))
BadOf(defs, ms) == {m.pos : m \in {x \in Rng(ms) : LET n == Lookup(defs, x.text) IN n # 0 /\ ParseMarker(defs[n], x.text).e = 1}}

Files(defs, files) == [n \in 1..Len(files) |-> File(defs, files[n])]
NodesOf(fs) == <<Node(0, "", Concat([n \in 1..Len(fs) |-> fs[n].pkg]))>> \o Concat([n \in 1..Len(fs) |-> fs[n].nodes])
Bad(defs, nodes) == UNION {BadOf(For(defs, nodes[n].target), nodes[n].ms) : n \in 1..Len(nodes)}
=============================================================================
