---------------------------- MODULE MarkerRound ----------------------------
(* Every way to write a value parses back to exactly that value: exhaustive    *)
(* over small values of every argument type, alone (anonymous), as one of two  *)
(* arguments, and as a guessed (any) argument.  The states are also the cases  *)
(* replayed into the code (MarkerGen).                                         *)
EXTENDS MarkerParse
Ints == {"0", "7", "-3", "2147483647"}
Strs == {"", "a", "a b", "x,y;z", "q\"t", "{", "true", "12", "tru", "k:v", "-", "it's", "back\\slash"}
BareStrs == {"a", "a b", "tru", "-x", "a=b", "x.y", "a/b(c)", "it's"}
\* [c: canonical text, ts: the texts it may be written as]; g: texts whose guess is right too
Escaped(x) == LET f[n \in 0..Len(x)] == IF n = 0 THEN "" ELSE f[n - 1] \o (IF Char(x, n) \in {"\"", "\\"} THEN "\\" \o Char(x, n) ELSE Char(x, n)) IN "\"" \o f[Len(x)] \o "\""
IntV == {[k |-> "int", c |-> "i" \o x, ts |-> {x, " " \o x}, g |-> {x, " " \o x}] : x \in Ints}
NumV == {[k |-> "num", c |-> "n" \o x, ts |-> {x}, g |-> {x}] : x \in {"1.5", "-0.25"}}
BoolV == {[k |-> "bool", c |-> "b" \o (IF x = "true" THEN "T" ELSE "F"), ts |-> {x, " " \o x}, g |-> {x}] : x \in {"true", "false"}}
StrV == {[k |-> "str", c |-> CStr(x), g |-> {Escaped(x), " " \o Escaped(x), "`" \o x \o "`"},
          ts |-> {Escaped(x), " " \o Escaped(x), "`" \o x \o "`"} \cup (IF x \in BareStrs \cup {"true", "12"} THEN {x} ELSE {})] : x \in Strs \cup BareStrs}
     \* a bare word is guessed to be a string too, unless it reads as something else
StrVg == {[v EXCEPT !.g = v.g \cup (v.ts \cap (BareStrs \ {"it's"}))] : v \in StrV}
Scalars == IntV \cup NumV \cup BoolV \cup StrVg
Few(K) == {v \in Scalars : v.k = K /\ v.c \in {"i7", "i-3", "s1:a", "s5:x,y;z", "s0:", "bT", "n1.5", "s1:{", "s3:k:v"}}
Kinds == {"int", "num", "str", "bool"}
Brace(xs) == {"{" \o Join(xs, ",") \o "}", "{ " \o Join(xs, " , ") \o " }", "{" \o Join(xs, ", ") \o "}"}
Pairs(K) == {<<a, b>> : a \in Few(K), b \in Few(K)}
\* bare strings may not stand in front of a space in which braces or commas follow: trailing space is dropped, so they may
SliceV(K) ==
  {[k |-> "slice", c |-> "[]", ts |-> {"{}", "{ }"}, g |-> {}]} \cup
  {[k |-> "slice", c |-> CSlice(<<a.c>>), ts |-> UNION {Brace(<<x>>) : x \in a.ts} \cup {x \in a.ts : Peek(x, 1) # "{"}, g |-> UNION {Brace(<<x>>) : x \in a.g}] : a \in Few(K)} \cup
  {[k |-> "slice", c |-> CSlice(<<p[1].c, p[2].c>>),
    ts |-> UNION {Brace(<<x, y>>) : x \in p[1].ts, y \in p[2].ts} \cup {x \o ";" \o y : x \in p[1].ts, y \in p[2].ts},
    g |-> UNION {Brace(<<x, y>>) : x \in p[1].g, y \in p[2].g} \cup {x \o ";" \o y : x \in p[1].g, y \in p[2].g}] : p \in Pairs(K)}
Keys == {[c |-> "a", ts |-> {"a", "\"a\"", " a"}], [c |-> "x,:", ts |-> {"\"x,:\"", "`x,:`"}]}
MapV(K) == {[k |-> "map", c |-> "{}", ts |-> {"{}", "{ }"}, g |-> {"{}", "{ }"}]} \cup
  {[k |-> "map", c |-> CMap(<< <<key.c, a.c>> >>),
    ts |-> {"{" \o y \o ":" \o x \o "}" : y \in key.ts, x \in a.ts} \cup {"{" \o y \o ": " \o x \o " }" : y \in key.ts, x \in a.ts},
    g |-> {"{" \o y \o ":" \o x \o "}" : y \in key.ts, x \in a.g}] : key \in Keys, a \in Few(K)} \cup
  {[k |-> "map", c |-> CMap(<< <<"a", a.c>>, <<"b", b.c>> >>),
    ts |-> {"{b: " \o y \o ", a: " \o x \o "}" : x \in a.ts, y \in b.ts}, g |-> {"{b:" \o y \o ",a:" \o x \o "}" : x \in a.g, y \in b.g}] : a \in Few(K), b \in Few(K)}
Anon(t) == [name |-> "m:n", kind |-> "anon", strict |-> TRUE, args |-> <<[name |-> "", type |-> t, opt |-> FALSE]>>]
Two(t) == [name |-> "m:n", kind |-> "struct", strict |-> TRUE,
           args |-> <<[name |-> "first", type |-> Ty("str"), opt |-> TRUE], [name |-> "val", type |-> t, opt |-> FALSE]>>]
VARIABLES typ, val, txt, shape
Domain ==
  {<<Ty(v.k), v.c, v.ts, v.g>> : v \in Scalars} \cup
  UNION {{<<SliceOf(Ty(K)), v.c, v.ts, v.g>> : v \in SliceV(K)} : K \in Kinds} \cup
  UNION {{<<MapOf(Ty(K)), v.c, v.ts, {}>> : v \in MapV(K)} : K \in Kinds} \cup
  UNION {{<<MapOf(Ty("any")), v.c, v.g, v.g>> : v \in MapV(K)} : K \in Kinds} \cup
  UNION {{<<SliceOf(SliceOf(Ty(K))), "[" \o v.c \o "|" \o v.c \o "]", {"{" \o x \o ", " \o x \o "}" : x \in {y \in v.ts : Peek(y, 1) = "{"}}, {}>> : v \in SliceV(K)} : K \in {"int", "str"}}
RInit == /\ \E d \in Domain : /\ val = d[2]
                              /\ \/ typ = d[1] /\ txt \in d[3]
                                 \/ typ = Ty("any") /\ txt \in d[4]
         /\ shape = "start"
RNext == shape = "start" /\ shape' \in {"anon", "first", "last", "only"} /\ UNCHANGED <<typ, val, txt>>
Def == IF shape = "anon" THEN Anon(typ) ELSE Two(typ)
Marker == CASE shape = "anon" -> "m:n=" \o txt
            [] shape = "only" -> "m:n:val=" \o txt
            [] shape = "first" -> "m:n:val=" \o txt \o ",first=z"
            [] shape = "last" -> "m:n:first=\"q,r\",val=" \o txt
Want == CASE shape = "anon" -> <<val>> [] shape = "only" -> <<"s0:", val>> [] shape = "first" -> <<"s1:z", val>> [] OTHER -> <<"s3:q,r", val>>
Roundtrip == shape # "start" => LET r == ParseMarker(Def, Marker) IN
             r.e = 0 /\ r.vals = Want
\* What M02 states, for single mistakes in such markers.
Refused(d, m) == ParseMarker(d, m).e = 1
Mistakes == shape # "start" =>
  /\ shape # "anon" => Refused(Def, "m:n:val=" \o txt \o ",other=1") /\ Refused(Def, "m:n:valu=" \o txt) /\ Refused(Def, "m:n:first=z")
                       /\ Refused(Def, "m:n:val=" \o txt \o ",") /\ Refused(Def, "m:n")
  /\ shape = "anon" => Refused(Def, "m:n") /\ (txt # "" => Refused([Def EXCEPT !.kind = "empty", !.args = <<>>], Marker))
  /\ typ.k \in {"int", "bool", "num"} /\ shape \in {"only", "last"} => Refused(Def, Marker \o "z") /\ Refused(Def, Marker \o " z") /\ Refused(Def, Marker \o ";2")
  /\ typ.k = "slice" /\ Peek(txt, 1) = "{" => Refused(Def, Marker \o "}") /\ Refused(Def, "m:n:val=" \o SubSeq(txt, 1, Len(txt) - 1))
=============================================================================
