------------------------------ MODULE GoSchema ------------------------------
(* The schema of a Go type: types, fields and markers as data.               *)
(* A type: [k, n, e]: k = "b" (predeclared, n its name), "l" (a name of the  *)
(*   same package or a dot import), "s" (a qualified name), "slice", "arr",  *)
(*   "ptr" (e = <<element>>), "map" (e = <<key, value>>), "bad" (a form that *)
(*   has no schema).                                                         *)
(* Declarations: [name, alias, type]. What is judged: [name, type, struct,   *)
(*   fields, marsh (own or inherited marshalling: "", "json", "text"),       *)
(*   marks, doc], a field: [emb, exported, hasTag, tag, inline, omit, type,  *)
(*   req (required/optional markers), less (schemaless), marks, doc].        *)
(* A marker: [m, items, v (its value as it stands in the schema), flag].     *)
(* A schema is as in Schema, with c a set.                                   *)
EXTENDS Schema, Json, IOUtils
DeclList == ndJsonDeserialize(IOEnv.PRELUDE)       \* the declarations that types refer to
DeclNames == {DeclList[i].name : i \in DOMAIN DeclList}
DeclTable == [n \in DeclNames |-> DeclList[CHOOSE i \in DOMAIN DeclList : DeclList[i].name = n]]
Decls(n) == DeclTable[n]

\* ---- schemas
None == [c |-> {}, req |-> {}, rules |-> <<>>, keys |-> <<>>, subs |-> {}, all |-> <<>>, ref |-> "", desc |-> ""]
Get(s, k) == LET h == {x \in s.c : x[1] = k} IN IF h = {} THEN "" ELSE (CHOOSE x \in h : TRUE)[2]
Del(s, k) == [s EXCEPT !.c = {x \in @ : x[1] # k}]
Put(s, k, v) == [Del(s, k) EXCEPT !.c = @ \cup {<<k, v>>}]
Q(v) == "\"" \o v \o "\""
Typed(t) == IF t = "" THEN None ELSE Put(None, "type", Q(t))
Sub(s, lb) == (CHOOSE x \in s.subs : x[1] = lb)[2]

\* ---- types. Every conversion gives [s, bad]: bad counts what is reported.
BasicType(n, floats) ==
  CASE n = "bool" -> "boolean" [] n = "string" -> "string"
    [] n \in {"int", "int8", "int16", "int32", "int64", "rune", "uint", "uint8", "byte", "uint16", "uint32", "uint64", "uintptr"} -> "integer"
    [] n \in {"float32", "float64"} /\ floats -> "number"
    [] OTHER -> ""
BasicFormat(n) == CASE n \in {"int32", "uint32", "rune"} -> "int32" [] n \in {"int64", "uint64"} -> "int64" [] OTHER -> ""
Basic(n, floats) == IF BasicType(n, floats) = "" THEN [s |-> None, bad |-> 1]
            ELSE [s |-> LET s == Typed(BasicType(n, floats)) IN IF BasicFormat(n) = "" THEN s ELSE Put(s, "format", Q(BasicFormat(n))), bad |-> 0]

\* Aliases followed to what they stand for, and a named type to what it is made of.
RECURSIVE Unalias(_), Under(_)
Unalias(t) == IF t.k \in {"l", "s"} THEN IF Decls(t.n).alias THEN Unalias(Decls(t.n).type) ELSE t ELSE t
Under(t) == LET u == Unalias(t) IN IF u.k \in {"l", "s"} THEN Under(Decls(u.n).type) ELSE u
IsByte(t) == LET u == Under(t) IN u.k = "b" /\ u.n \in {"byte", "uint8"}
\* The name a reference to a type is for: that of the type, or of the last alias before a type without a name.
RECURSIVE Canon(_)
Canon(n) == LET d == Decls(n) IN IF d.alias /\ d.type.k \in {"l", "s"} THEN Canon(d.type.n) ELSE n
RECURSIVE BadDecl(_, _, _), Conv(_, _)
\* An alias of a predeclared type is known to be that type where it is used, other names are references.
Conv(t, fl) ==
  CASE t.k = "b" -> Basic(t.n, fl)
    [] t.k \in {"l", "s"} -> LET d == Decls(t.n) ref == Canon(t.n)
                            IN IF t.k = "l" /\ d.alias /\ d.type.k = "b" THEN LET r == Basic(d.type.n, fl) IN [r EXCEPT !.s.ref = ref]
                               ELSE [s |-> [None EXCEPT !.ref = ref], bad |-> 0]
    [] t.k = "ptr" -> Conv(t.e[1], fl)
    [] t.k \in {"slice", "arr"} ->
         IF t.k = "slice" /\ IsByte(t.e[1]) THEN [s |-> Put(Typed("string"), "format", Q("byte")), bad |-> 0]
         ELSE LET i == Conv(t.e[1], fl) IN [s |-> [Typed("array") EXCEPT !.subs = {<<"i", i.s>>}], bad |-> i.bad]
    [] t.k = "map" ->
         LET key == Under(t.e[1]) v == Conv(t.e[2], fl)
         IN IF ~(key.k = "b" /\ key.n = "string") \/ t.e[2].k = "bad" THEN [s |-> None, bad |-> 1]
            ELSE [s |-> [Typed("object") EXCEPT !.subs = {<<"a", v.s>>}], bad |-> v.bad]
    [] OTHER -> [s |-> None, bad |-> 1]
\* A declared type that has no schema itself is reported where it is used.
BadDecl(t, fl, depth) ==
  CASE depth = 0 -> FALSE
    [] t.k \in {"l", "s"} -> BadDecl(Decls(t.n).type, fl, depth - 1)
    [] t.k = "struct" -> FALSE
    [] OTHER -> Conv(t, fl).bad > 0 \/ (~(t.k = "slice" /\ IsByte(t.e[1])) /\ \E i \in DOMAIN t.e : (t.k = "map" => i = 2) /\ BadDecl(t.e[i], fl, depth - 1))
ConvAll(t, fl) == LET c == Conv(t, fl) IN [c EXCEPT !.bad = @ + IF BadDecl(t, fl, 6) THEN 1 ELSE 0]

\* A reference to an alias of a predeclared type says what that type says.
RECURSIVE Norm(_, _)
Norm(s, fl) ==
  LET d == Decls(Canon(s.ref))
      known == IF s.ref = "" THEN {} ELSE IF d.alias /\ d.type.k = "b" THEN Basic(d.type.n, fl).s.c ELSE {}
  IN [s EXCEPT !.ref = IF @ = "" \/ known # {} THEN "" ELSE Canon(@),
               !.c = @ \cup {x \in known : Get(s, x[1]) = ""},
               !.subs = {<<x[1], Norm(x[2], fl)>> : x \in @}, !.all = [i \in DOMAIN @ |-> Norm(@[i], fl)]]

\* ---- markers. Apply gives the schema, or says that the marker does not fit.
Key(m) ==
  CASE m = "Maximum" -> "maximum" [] m = "Minimum" -> "minimum" [] m = "ExclusiveMaximum" -> "exclusiveMaximum" [] m = "ExclusiveMinimum" -> "exclusiveMinimum"
    [] m = "MultipleOf" -> "multipleOf" [] m = "MaxLength" -> "maxLength" [] m = "MinLength" -> "minLength" [] m = "Pattern" -> "pattern"
    [] m = "MaxItems" -> "maxItems" [] m = "MinItems" -> "minItems" [] m = "UniqueItems" -> "uniqueItems"
    [] m = "MinProperties" -> "minProperties" [] m = "MaxProperties" -> "maxProperties" [] m = "Enum" -> "enum" [] m = "Format" -> "format" [] m = "Type" -> "type"
    [] m = "Nullable" -> "nullable" [] m \in {"Default", "KubeDefault"} -> "default" [] m = "Example" -> "example" [] m = "Title" -> "title"
    [] m = "PreserveUnknownFields" -> "x-kubernetes-preserve-unknown-fields" [] m = "EmbeddedResource" -> "x-kubernetes-embedded-resource"
    [] m = "IntOrString" -> "x-kubernetes-int-or-string" [] m = "ListType" -> "x-kubernetes-list-type" [] m \in {"MapType", "StructType"} -> "x-kubernetes-map-type"
    [] OTHER -> ""
Numeric == {"Maximum", "Minimum", "ExclusiveMaximum", "ExclusiveMinimum", "MultipleOf"}
Fits(m, s) ==
  LET t == Get(s, "type")
  IN /\ m.m \in Numeric => t \in {Q("integer"), Q("number")}
     /\ m.m \in {"Maximum", "Minimum", "MultipleOf"} /\ t = Q("integer") => m.flag # "fraction"
     /\ m.m \in {"MaxLength", "MinLength", "Pattern"} => t = Q("string") \/ Get(s, "x-kubernetes-int-or-string") = "true"
     /\ m.m \in {"MaxItems", "MinItems", "UniqueItems", "ListType", "ListMapKey"} => t = Q("array")
     /\ m.m \in {"MinProperties", "MaxProperties", "MapType"} => t = Q("object")
     /\ m.m = "StructType" => t \in {Q("object"), ""}
     /\ m.m = "ListMapKey" => Get(s, "x-kubernetes-list-type") = Q("map")
     /\ m.flag # "unknown value"        \* list, map and struct types, reasons of rules, titles
Apply1(m, s) ==
  CASE m.m = "XValidation" -> [s EXCEPT !.rules = Append(@, m.v)]
    [] m.m = "ListMapKey" -> [s EXCEPT !.keys = Append(@, m.v)]
    [] m.v \in {"", "\"\"", "false"} /\ m.m \in {"Pattern", "Format", "Type", "UniqueItems", "ExclusiveMaximum", "ExclusiveMinimum", "Title"} -> Del(s, Key(m.m))
    [] m.m = "KubeDefault" /\ m.flag = "nothing" -> s
    [] m.m = "Default" /\ m.v = "{}" /\ Get(s, "type") = Q("array") -> Put(s, "default", "[]")
    [] OTHER -> Put(s, Key(m.m), m.v)
RECURSIVE ApplyAll(_, _)
ApplyAll(ms, r) ==
  IF ms = <<>> THEN r
  ELSE ApplyAll(Tail(ms), IF Fits(Head(ms), r.s) THEN [r EXCEPT !.s = Apply1(Head(ms), r.s)] ELSE [r EXCEPT !.misfits = @ + 1])
\* What other markers depend on comes first; of those for one attribute the stronger comes last; otherwise as written.
Stages == << {"Type", "IntOrString"}, {"ListType", "KubeDefault"},
             {"Maximum", "Minimum", "ExclusiveMaximum", "ExclusiveMinimum", "MultipleOf", "MaxLength", "MinLength", "Pattern", "MaxItems", "MinItems", "UniqueItems",
              "MinProperties", "MaxProperties", "Enum", "Format", "Nullable", "Default", "Example", "Title", "PreserveUnknownFields", "EmbeddedResource", "XValidation",
              "ListMapKey", "MapType"}, {"StructType"} >>
Staged(ms) == LET st(i) == SelectSeq(ms, LAMBDA m : m.m \in Stages[i]) IN st(1) \o st(2) \o st(3) \o st(4)
Marked(ms, s) ==
  LET own == ApplyAll(Staged(SelectSeq(ms, LAMBDA m : ~m.items)), [s |-> s, misfits |-> 0])
      its == Staged(SelectSeq(ms, LAMBDA m : m.items))
  IN IF its = <<>> THEN own
     ELSE IF Get(own.s, "type") # Q("array") \/ ~\E x \in own.s.subs : x[1] = "i" THEN [own EXCEPT !.misfits = @ + Len(its)]
     ELSE LET r == ApplyAll(its, [s |-> Sub(own.s, "i"), misfits |-> own.misfits])
          IN [s |-> [own.s EXCEPT !.subs = {<<"i", r.s>>}], misfits |-> r.misfits]

\* ---- fields
Shown(f, ignore) == ~(~f.emb /\ ignore /\ ~f.exported)
Hidden(f) == f.hasTag /\ f.tag = "-" /\ ~f.dashComma
Inline(f) == f.inline \/ f.tag = ""
Required(f, optionalPackage) ==
  /\ ~Inline(f)
  /\ CASE "kb-optional" \in Rng(f.req) -> FALSE [] "kb-required" \in Rng(f.req) -> TRUE [] "optional" \in Rng(f.req) -> FALSE [] "required" \in Rng(f.req) -> TRUE
       [] optionalPackage -> FALSE [] OTHER -> ~f.omit
\* The string option of a tag puts numbers, booleans and strings in strings.
Quotable(t) == LET u == Under(IF Unalias(t).k = "ptr" THEN Unalias(t).e[1] ELSE t) IN u.k = "b" /\ BasicType(u.n, TRUE) # ""
FieldSchema(f, fl) ==
  LET t == IF f.less THEN [s |-> None, bad |-> 0] ELSE IF f.quote /\ Quotable(f.type) THEN [s |-> Typed("string"), bad |-> 0] ELSE ConvAll(f.type, fl)
      r == Marked(f.marks, t.s)
  IN [s |-> [r.s EXCEPT !.desc = f.doc], bad |-> t.bad, misfits |-> r.misfits]

RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN 0 ELSE Head(q) + Sum(Tail(q))
\* The schema of a declaration, how many of its types cannot be described, and how many markers do not fit.
Want(d, ignore, optionalPackage, fl) ==
  LET fs == SelectSeq(d.fields, LAMBDA f : Shown(f, ignore) /\ f.hasTag /\ ~Hidden(f))
      sch == [i \in DOMAIN fs |-> FieldSchema(fs[i], fl)]
      lost == Cardinality({i \in DOMAIN d.fields : Shown(d.fields[i], ignore) /\ ~d.fields[i].hasTag})
      pick(Test(_)) == SelectSeq([i \in DOMAIN fs |-> i], LAMBDA i : Test(fs[i]))
      all == pick(Inline)
      strct == [s |-> [Typed("object") EXCEPT !.subs = {<<"p:" \o fs[i].tag, sch[i].s>> : i \in {i \in DOMAIN fs : ~Inline(fs[i])}},
                                              !.all = [i \in DOMAIN all |-> sch[all[i]].s],
                                              !.req = {fs[i].tag : i \in {i \in DOMAIN fs : Required(fs[i], optionalPackage)}}],
                bad |-> lost + Sum([i \in DOMAIN fs |-> sch[i].bad]), misfits |-> Sum([i \in DOMAIN fs |-> sch[i].misfits])]
      declared == IF d.struct THEN strct ELSE LET c == ConvAll(d.type, fl) IN [s |-> c.s, bad |-> c.bad, misfits |-> 0]
      saysType == \E m \in Rng(d.marks) : m.m = "Type" /\ ~m.items
      \* what types that encode themselves are made of does not matter
      start == CASE d.marsh = "json" /\ saysType -> [s |-> None, bad |-> 0, misfits |-> 0]
                 [] d.marsh = "text" -> [s |-> Typed("string"), bad |-> 0, misfits |-> 0]
                 [] OTHER -> declared
      r == Marked(d.marks, start.s)
      changed == d.marsh = "text" /\ Get(r.s, "type") # Q("string")
  IN [s |-> [r.s EXCEPT !.desc = d.doc], bad |-> start.bad + IF changed THEN 1 ELSE 0, misfits |-> start.misfits + r.misfits,
      opaque |-> d.marsh = "text" \/ (d.marsh = "json" /\ saysType)]
=============================================================================
