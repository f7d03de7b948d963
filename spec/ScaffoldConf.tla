---------------------------- MODULE ScaffoldConf ----------------------------
(* An observation of scaffolding: the description, err, wrote (something came *)
(* out), parse and check (errors of the source), formatted, types, others,    *)
(* and what the generators make of the types: crds (kind, fields) and objects *)
(* (types that became objects), when they were run.                           *)
EXTENDS Conf, Scaffold
Shape(t) == [name |-> t.name, fields |-> t.fields, markers |-> Rng(t.markers)]
Judge(o) ==
  IF ~Described(o) THEN (IF o.err = "" THEN {<<"accepted", o.kind>>} ELSE {}) \cup (IF o.wrote THEN {<<"writes although it fails", o.kind>>} ELSE {})
  ELSE IF o.err # "" THEN {<<"refused", o.err>>}
  ELSE IF o.parse # "" THEN {<<"not Go", o.parse>>}
  ELSE (IF o.check = "" THEN {} ELSE {<<"does not compile", o.check>>})
    \cup (IF o.formatted \/ o.help # <<>> THEN {} ELSE {<<"not formatted", "">>})
    \cup {<<"missing", ToString(t)>> : t \in Types(o) \ {Shape(x) : x \in Rng(o.types)}}
    \cup {<<"declared besides", ToString(t)>> : t \in {Shape(x) : x \in Rng(o.types)} \ Types(o)}
    \cup (IF Len(o.types) = 4 /\ o.others = 0 THEN {} ELSE {<<"declarations", ToString(Len(o.types) + o.others)>>})
    \cup {<<"markers repeated", t.name>> : t \in {x \in Rng(o.types) : Len(x.markers) # Cardinality(Rng(x.markers))}}
    \cup {<<"help", t.name>> : t \in {x \in Rng(o.types) : IF x.name \in {o.kind \o "Spec", o.kind \o "Status"} THEN ~Ends(x.body, o.help) ELSE x.body # <<>>}}
    \cup (IF \E t \in Rng(o.types) : t.name = o.kind /\ Contains(t.doc, " " \o Resource(o) \o " ") THEN {} ELSE {<<"resource not named", Resource(o)>>})
    \cup (IF ~o.ran THEN {} ELSE
          (IF o.generr = "" THEN {} ELSE {<<"generation fails", o.generr>>})
          \cup (IF o.crds = << <<o.kind, <<"spec", "status">> >> >> THEN {} ELSE {<<"CRDs", ToString(o.crds)>>})
          \cup (IF Rng(o.objects) = {o.kind, o.kind \o "List"} THEN {} ELSE {<<"objects", ToString(o.objects)>>}))
Next == ~done /\ done' = TRUE /\ l' = l /\ Report(l, Judge(Trace[l]))
=============================================================================
