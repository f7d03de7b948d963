------------------------------ MODULE SerialRun ------------------------------
(* Go types, what encoding/json writes and reads for them, and the mapping   *)
(* of types to schemas: whatever is written is accepted and kept, whatever   *)
(* is accepted can be read, and whatever is kept is known. Variant names one *)
(* way to get the mapping wrong.                                             *)
EXTENDS Serial, TLC
CONSTANTS Variant, Depth
VARIABLES type, value, step
\* ---- values
S0 == [k |-> "", s |-> "", n |-> 0, fits |-> <<>>, ps |-> <<>>, es |-> <<>>]
Str(x, f) == [S0 EXCEPT !.k = "string", !.s = x, !.n = 1, !.fits = f]
Null == [S0 EXCEPT !.k = "null"]
True == [S0 EXCEPT !.k = "boolean", !.s = "true"]
One == [S0 EXCEPT !.k = "integer", !.s = "1"]
Half == [S0 EXCEPT !.k = "number", !.s = "0.5"]
Word == Str("w%", <<>>)             \* neither base64 nor a number
Base == Str("QQ==", <<"byte">>)
Digit == Str("1", <<>>)
Arr(q) == [S0 EXCEPT !.k = "array", !.n = Len(q), !.es = q]
Obj(ps) == [S0 EXCEPT !.k = "object", !.n = Len(ps), !.ps = ps]
P(n, v) == [n |-> n, v |-> v]
Scalars == {Null, True, One, Half, Word, Base, Digit}
Flat(X) == {Arr(<<>>)} \cup {Arr(<<x>>) : x \in X} \cup {Obj(<<>>)} \cup {Obj(<<P(n, x)>>) : n \in {"a", "z"}, x \in X} \cup {Obj(<<P("a", x), P("z", y)>>) : x \in X, y \in {One, Word}}
Values == LET one == Flat(Scalars) IN IF Depth = 1 THEN Scalars \cup one ELSE Scalars \cup one \cup Flat(one)
\* ---- types: [k, e, omit, quote, null]; a struct has one field, named a
T0 == {[k |-> x, e |-> <<>>, omit |-> FALSE, quote |-> FALSE, null |-> FALSE] : x \in {"bool", "int", "float", "string", "bytes", "array of bytes", "int or string", "text"}}
Mk(k, t) == [k |-> k, e |-> <<t>>, omit |-> FALSE, quote |-> FALSE, null |-> FALSE]
Nilable(t) == t.k \in {"slice", "ptr", "map", "bytes"}
Struct(t) == {[Mk("struct", t) EXCEPT !.omit = o, !.quote = q, !.null = n] :
                o \in BOOLEAN, q \in (IF t.k \in {"bool", "int", "float"} THEN BOOLEAN ELSE {FALSE}), n \in (IF Nilable(t) THEN BOOLEAN ELSE {FALSE})}
Over(X) == UNION {{Mk("slice", t), Mk("array", t), Mk("ptr", t), Mk("map", t)} \cup Struct(t) : t \in X}
Types == LET one == Over(T0) IN IF Depth = 1 THEN T0 \cup one ELSE T0 \cup one \cup Over(one)
\* ---- encoding/json. Empty fields with omitempty are left out; a nil is written only where the field may be null.
RECURSIVE Enc(_), Reads(_, _), Knows(_, _)
Quoted(v) == IF v.k = "integer" THEN Digit ELSE Str("q", <<>>)
Enc(t) ==
  CASE t.k = "bool" -> {True} [] t.k = "int" -> {One} [] t.k = "float" -> {One, Half} [] t.k \in {"string", "text"} -> {Word, Digit}
    [] t.k = "bytes" -> {Base} [] t.k = "array of bytes" -> {Arr(<<One>>)} [] t.k = "int or string" -> {One, Word}
    [] t.k = "ptr" -> Enc(t.e[1])
    [] t.k = "slice" -> {Arr(<<>>)} \cup {Arr(<<x>>) : x \in Enc(t.e[1])}
    [] t.k = "array" -> {Arr(<<x>>) : x \in Enc(t.e[1])}
    [] t.k = "map" -> {Obj(<<>>)} \cup {Obj(<<P("z", x)>>) : x \in Enc(t.e[1])}
    [] t.k = "struct" -> (IF t.omit THEN {Obj(<<>>)} ELSE {})
         \cup {Obj(<<P("a", IF t.quote THEN Quoted(x) ELSE x)>>) : x \in Enc(t.e[1])}
         \cup (IF t.null /\ ~t.omit THEN {Obj(<<P("a", Null)>>)} ELSE {})
Reads(t, v) ==
  IF v.k = "null" THEN TRUE ELSE
  CASE t.k = "bool" -> v.k = "boolean" [] t.k = "int" -> v.k = "integer" [] t.k = "float" -> v.k \in {"integer", "number"} [] t.k \in {"string", "text"} -> v.k = "string"
    [] t.k = "bytes" -> v.k = "string" /\ "byte" \in SeqSet(v.fits) [] t.k = "int or string" -> v.k \in {"integer", "string"}
    [] t.k = "array of bytes" -> v.k = "array" /\ \A i \in DOMAIN v.es : v.es[i].k \in {"integer", "null"}
    [] t.k = "ptr" -> Reads(t.e[1], v)
    [] t.k \in {"slice", "array"} -> v.k = "array" /\ \A i \in DOMAIN v.es : Reads(t.e[1], v.es[i])
    [] t.k = "map" -> v.k = "object" /\ \A i \in DOMAIN v.ps : Reads(t.e[1], v.ps[i].v)
    [] t.k = "struct" -> v.k = "object" /\ \A i \in DOMAIN v.ps : v.ps[i].n = "a" => IF t.quote THEN v.ps[i].v.k \in {"string", "null"} ELSE Reads(t.e[1], v.ps[i].v)
\* Every property has a place in the Go value.
Knows(t, v) ==
  CASE t.k = "ptr" -> Knows(t.e[1], v)
    [] t.k \in {"slice", "array"} -> v.k = "array" => \A i \in DOMAIN v.es : Knows(t.e[1], v.es[i])
    [] t.k = "map" -> v.k = "object" => \A i \in DOMAIN v.ps : Knows(t.e[1], v.ps[i].v)
    [] t.k = "struct" -> v.k = "object" => \A i \in DOMAIN v.ps : v.ps[i].n = "a" /\ (t.quote \/ Knows(t.e[1], v.ps[i].v))
    [] OTHER -> TRUE
\* ---- the mapping to schemas
None == [type |-> "", fmt |-> "", pat |-> <<>>, null |-> FALSE, ios |-> FALSE, pres |-> FALSE, emb |-> FALSE, props |-> <<>>, req |-> <<>>, addl |-> <<>>, items |-> <<>>,
         any |-> <<>>, all |-> <<>>, one |-> <<>>, enum |-> <<>>, least |-> <<>>, most |-> <<>>]
Ty(x) == [None EXCEPT !.type = x]
RECURSIVE Map(_)
Map(t) ==
  CASE t.k = "bool" -> Ty("boolean") [] t.k = "int" -> Ty("integer") [] t.k = "float" -> Ty("number") [] t.k \in {"string", "text"} -> Ty("string")
    [] t.k = "bytes" -> IF Variant = "bytes" THEN [Ty("array") EXCEPT !.items = <<Ty("integer")>>] ELSE [Ty("string") EXCEPT !.fmt = "byte"]
    [] t.k = "array of bytes" -> IF Variant = "arr" THEN [Ty("string") EXCEPT !.fmt = "byte"] ELSE [Ty("array") EXCEPT !.items = <<Ty("integer")>>]
    [] t.k = "int or string" -> [None EXCEPT !.ios = TRUE, !.any = <<Ty("integer"), Ty("string")>>]
    [] t.k = "ptr" -> Map(t.e[1])
    [] t.k \in {"slice", "array"} -> [Ty("array") EXCEPT !.items = <<Map(t.e[1])>>]
    [] t.k = "map" -> IF Variant = "closed" THEN Ty("object") ELSE [Ty("object") EXCEPT !.addl = <<Map(t.e[1])>>]
    [] t.k = "struct" -> LET f == IF t.quote /\ Variant # "string" THEN Ty("string") ELSE Map(t.e[1])
                             n == IF t.null /\ Variant # "null" THEN [f EXCEPT !.null = TRUE] ELSE f
                         IN [Ty("object") EXCEPT !.props = <<[n |-> "a", s |-> n]>>, !.req = IF t.omit /\ Variant # "omit" THEN <<>> ELSE <<"a">>]
\* ---- every type, and every value under it: what Go writes, and what it may get
Init == type \in Types /\ value = Null /\ step = "type"
Write == step = "type" /\ step' = "written" /\ value' \in Enc(type) /\ UNCHANGED type
Get == step = "type" /\ step' = "got" /\ value' \in Values /\ UNCHANGED type
Next == Write \/ Get
Agree == /\ step = "written" => Accepts(Map(type), value) /\ Kept(Map(type), value) /\ Reads(type, value) /\ Knows(type, value)
         /\ step = "got" => /\ Accepts(Map(type), value) => Reads(type, value)
                            /\ Accepts(Map(type), value) /\ Kept(Map(type), value) => Knows(type, value)
=============================================================================
