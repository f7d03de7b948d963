---------------------------- MODULE MarkerParse ----------------------------
(* The marker language: how the text of a marker comment becomes the value of *)
(* its definition.  Results are records [e, p, v]: e = 0 parsed, 1 an error,  *)
(* 2 outside the specified language (odd number literals, escapes and empty   *)
(* bare strings, on which the documentation is silent); p is the position of  *)
(* the next character, v the value as canonical text.                         *)
(*                                                                            *)
(* Types are records [k, of, ptr] with k one of int i32 num str bool any      *)
(* slice map raw; of is the item type (a sequence of length 0 or 1).          *)
EXTENDS Lex, Integers

Letters == {Char("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz_", n) : n \in 1..53}
Digits == {Char("0123456789", n) : n \in 1..10}
Spaces == {" ", "\t", "\n", "\r"}
At(s, p) == IF p > Len(s) THEN "" ELSE Char(s, p)       \* "" is the end of text
From(s, p) == IF p > Len(s) THEN "" ELSE SubSeq(s, p, Len(s))
RECURSIVE SkipIn(_, _, _)
SkipIn(s, p, C) == IF p <= Len(s) /\ Char(s, p) \in C THEN SkipIn(s, p + 1, C) ELSE p
SkipWs(s, p) == SkipIn(s, p, Spaces)
Peek(s, p) == At(s, SkipWs(s, p))                        \* next character after spaces

\* ---------------------------------------------------------------- tokens
\* A token is [k, a, b]: kind and extent [a, b).  Kinds: id int float str lit
\* (raw literal) eof bad (unterminated) odd (unspecified number) or a character.
RECURSIVE StrEnd(_, _)
StrEnd(s, p) == \* the position after the closing quote, 0 if there is none, -1 for an escape we do not specify
  IF p > Len(s) \/ Char(s, p) = "\n" THEN 0
  ELSE IF Char(s, p) = "\"" THEN p + 1
  ELSE IF Char(s, p) = "\\" THEN
     IF p + 1 > Len(s) THEN 0 ELSE IF Char(s, p + 1) \in {"n", "t", "\\", "\""} THEN StrEnd(s, p + 2) ELSE -1
  ELSE StrEnd(s, p + 1)
RECURSIVE LitEnd(_, _)
LitEnd(s, p) == IF p > Len(s) THEN 0 ELSE IF Char(s, p) = "`" THEN p + 1 ELSE LitEnd(s, p + 1)
T(k, a, b) == [k |-> k, a |-> a, b |-> b]
OddAfter == {"e", "E", "x", "X", "o", "O", "b", "B", "p", "P", "_"}
NumTok(s, a) ==
  LET i == SkipIn(s, a, Digits)
      frac == At(s, i) = "."
      j == IF frac THEN SkipIn(s, i + 1, Digits) ELSE i
  IN IF At(s, j) \in OddAfter \/ (i > a + 1 /\ Char(s, a) = "0") THEN T("odd", a, j)
     ELSE T(IF frac THEN "float" ELSE "int", a, j)
Tok(s, p, nums) ==
  LET a == SkipWs(s, p) c == At(s, a) IN
  IF c = "" THEN T("eof", a, a)
  ELSE IF c \in Letters THEN T("id", a, SkipIn(s, a, Letters \cup Digits))
  ELSE IF c \in Digits THEN (IF nums THEN NumTok(s, a) ELSE T(c, a, a + 1))
  ELSE IF c = "." /\ nums /\ At(s, a + 1) \in Digits THEN NumTok(s, a)
  ELSE IF c = "\"" THEN LET e == StrEnd(s, a + 1) IN IF e = 0 THEN T("bad", a, Len(s) + 1) ELSE IF e = -1 THEN T("odd", a, a) ELSE T("str", a, e)
  ELSE IF c = "`" THEN LET e == LitEnd(s, a + 1) IN IF e = 0 THEN T("bad", a, Len(s) + 1) ELSE T("lit", a, e)
  ELSE T(c, a, a + 1)
Text(s, t) == IF t.b > t.a THEN SubSeq(s, t.a, t.b - 1) ELSE ""
TokErr(t) == IF t.k = "bad" THEN 1 ELSE IF t.k = "odd" THEN 2 ELSE 0

\* ---------------------------------------------------------------- results
R(e, p, v) == [e |-> e, p |-> p, v |-> v]
Err(p) == R(1, p, "")
Unspec(p) == R(2, p, "")

RECURSIVE Unescape(_, _)
Unescape(s, p) == IF p > Len(s) THEN ""
  ELSE IF Char(s, p) = "\\" THEN LET c == Char(s, p + 1) IN
         (CASE c = "n" -> "\n" [] c = "t" -> "\t" [] OTHER -> c) \o Unescape(s, p + 2)
  ELSE Char(s, p) \o Unescape(s, p + 1)
Unquote(s, t) == LET inner == IF t.b - t.a <= 2 THEN "" ELSE SubSeq(s, t.a + 1, t.b - 2) IN
                 IF t.k = "str" THEN Unescape(inner, 1) ELSE inner
Separators == {",", ";", ":", "}", ""}

\* A string: quoted, or the bare text up to the next separator.  Quoted parts
\* inside a bare string hide separators.
RECURSIVE BareEnd(_, _, _)
BareEnd(s, p, b) == \* p: after the last token, b: where that token ended
  IF Peek(s, p) \in Separators THEN [e |-> 0, p |-> SkipWs(s, p), b |-> b]
  ELSE LET t == Tok(s, p, FALSE) IN
       IF TokErr(t) # 0 THEN [e |-> TokErr(t), p |-> p, b |-> b] ELSE BareEnd(s, t.b, t.b)
StrAt(s, p) ==  \* raw value in v
  LET t == Tok(s, p, FALSE) IN
  IF TokErr(t) # 0 THEN R(TokErr(t), p, "")
  ELSE IF t.k \in {"str", "lit"} THEN R(0, t.b, Unquote(s, t))
  ELSE IF t.k \in Separators /\ t.k # "" THEN Unspec(p)
  ELSE LET r == BareEnd(s, t.b, t.b) IN
       IF r.e # 0 THEN R(r.e, p, "") ELSE R(0, r.p, IF t.k = "eof" THEN "" ELSE SubSeq(s, t.a, r.b - 1))

\* ---------------------------------------------------------------- guessing
Ty(k) == [k |-> k, of |-> <<>>, ptr |-> FALSE]
SliceOf(t) == [k |-> "slice", of |-> <<t>>, ptr |-> FALSE]
MapOf(t) == [k |-> "map", of |-> <<t>>, ptr |-> FALSE]
G(e, t) == [e |-> e, t |-> t]
RECURSIVE Ahead(_, _)
Ahead(s, p) == \* the first of , ; end among the tokens from p on
  LET t == Tok(s, p, TRUE) IN
  IF TokErr(t) # 0 THEN [e |-> TokErr(t), k |-> ""]
  ELSE IF t.k \in {",", ";", "eof"} THEN [e |-> 0, k |-> t.k] ELSE Ahead(s, t.b)
RECURSIVE GuessOne(_, _)
GuessOne(s, p) ==
  LET c == Peek(s, p) IN
  CASE c \in {"\"", "'", "`"} -> G(0, Ty("str"))
    [] c = "{" ->
       LET q == SkipWs(s, p) + 1
           first == GuessOne(s, q)
           str == StrAt(s, q)
           \* an empty pair of braces: what follows must only be made of tokens
           str0 == IF Peek(s, q) = "}" THEN BareEnd(s, SkipWs(s, q) + 1, 0) ELSE [e |-> str.e, p |-> str.p, b |-> 0]
           next == Tok(s, str0.p, TRUE)
       IN IF first.e # 0 THEN first
          ELSE IF first.t.k = "str" THEN
             IF str0.e # 0 THEN G(str0.e, first.t)
             ELSE IF TokErr(next) # 0 THEN G(TokErr(next), first.t)
             ELSE IF next.k = ":" \/ Peek(s, q) = "}" THEN G(0, MapOf(Ty("any"))) ELSE G(0, SliceOf(first.t))
          ELSE G(0, SliceOf(first.t))
    [] c \in {"t", "f"} -> LET w == Text(s, Tok(s, p, TRUE)) IN
         G(0, IF w \in {"true", "false"} THEN Ty("bool") ELSE Ty("str"))
    [] OTHER ->
       LET t0 == Tok(s, p, TRUE)
           t == IF t0.k = "-" THEN Tok(s, t0.b, TRUE) ELSE t0
       IN IF TokErr(t) # 0 THEN G(TokErr(t), Ty("str"))
          ELSE G(0, CASE t.k = "int" -> Ty("int") [] t.k = "float" -> Ty("num") [] OTHER -> Ty("str"))
Guess(s, p, allowSlice) ==
  LET one == GuessOne(s, p) a == Ahead(s, p) IN
  IF ~allowSlice \/ one.e # 0 THEN one
  ELSE IF a.e # 0 THEN G(a.e, one.t)
  ELSE IF a.k = ";" THEN G(0, SliceOf(one.t)) ELSE one

\* ---------------------------------------------------------------- values
CStr(x) == "s" \o ToString(Len(x)) \o ":" \o x
AllZero(x) == \A n \in 1..Len(x) : Char(x, n) \in {"0", "."}
LastCh(x) == Char(x, Len(x))
NotAbove(d, m) == Len(d) < Len(m) \/ (Len(d) = Len(m) /\ ~LexLess(m, d))
Fits(k, neg, d) ==
  NotAbove(d, IF k = "i32" THEN IF neg THEN "2147483648" ELSE "2147483647"
              ELSE IF neg THEN "9223372036854775808" ELSE "9223372036854775807")
Signed(neg, d) == (IF neg THEN "-" ELSE "") \o d
IntAt(s, p, k) ==
  LET neg == Peek(s, p) = "-"
      t == Tok(s, IF neg THEN SkipWs(s, p) + 1 ELSE p, TRUE)
      d == Text(s, t)
  IN IF TokErr(t) # 0 THEN R(TokErr(t), p, "")
     ELSE IF t.k # "int" THEN Err(p)
     ELSE IF ~Fits(k, neg, d) THEN Err(p)
     ELSE R(0, t.b, "i" \o Signed(neg /\ d # "0", d))
NumAt(s, p) ==
  LET neg == Peek(s, p) = "-"
      t == Tok(s, IF neg THEN SkipWs(s, p) + 1 ELSE p, TRUE)
      d == Text(s, t)
  IN IF TokErr(t) # 0 THEN R(TokErr(t), p, "")
     ELSE IF t.k \notin {"int", "float"} THEN Err(p)
     ELSE IF (t.k = "float" /\ (LastCh(d) \in {"0", "."} \/ Char(d, 1) = ".")) \/ Len(d) > 14 \/ (neg /\ AllZero(d)) THEN Unspec(p)
     ELSE R(0, t.b, "n" \o Signed(neg, d))
BoolAt(s, p) ==
  LET t == Tok(s, p, TRUE) w == Text(s, t) IN
  IF TokErr(t) # 0 THEN R(TokErr(t), p, "")
  ELSE IF t.k = "id" /\ w \in {"true", "false"} THEN R(0, t.b, IF w = "true" THEN "bT" ELSE "bF") ELSE Err(p)

CMap(kv) == \* the last entry of a key counts
  LET keys == {kv[n][1] : n \in 1..Len(kv)}
      val(k) == kv[CHOOSE n \in 1..Len(kv) : kv[n][1] = k /\ \A m \in (n + 1)..Len(kv) : kv[m][1] # k][2]
      ks == SortedSeq(keys)
  IN "{" \o Join([n \in 1..Len(ks) |-> CStr(ks[n]) \o "=" \o val(ks[n])], "|") \o "}"
CSlice(vs) == "[" \o Join(vs, "|") \o "]"

RECURSIVE ValueAt(_, _, _, _), SliceFrom(_, _, _, _), LegacyFrom(_, _, _, _), MapFrom(_, _, _, _)
Ptr(t, r) == IF t.ptr /\ r.e = 0 THEN [r EXCEPT !.v = "&" \o r.v] ELSE r
ValueAt(s, p, t, inSlice) == Ptr(t,
  CASE t.k = "raw" -> R(0, Len(s) + 1, CStr(From(s, p)))
    [] t.k \in {"int", "i32"} -> IntAt(s, p, t.k)
    [] t.k = "num" -> NumAt(s, p)
    [] t.k = "str" -> LET r == StrAt(s, p) IN IF r.e = 0 THEN [r EXCEPT !.v = CStr(r.v)] ELSE r
    [] t.k = "bool" -> BoolAt(s, p)
    [] t.k = "any" -> LET g == Guess(s, p, ~inSlice) IN IF g.e # 0 THEN R(g.e, p, "") ELSE ValueAt(s, p, g.t, FALSE)
    [] t.k = "slice" -> IF Peek(s, p) = "{" THEN SliceFrom(s, SkipWs(s, p) + 1, t.of[1], <<>>) ELSE LegacyFrom(s, p, t.of[1], <<>>)
    [] t.k = "map" -> IF Peek(s, p) = "{" THEN MapFrom(s, SkipWs(s, p) + 1, t.of[1], <<>>) ELSE Err(p))
SliceFrom(s, p, t, acc) ==
  LET c == Peek(s, p) IN
  IF c = "}" THEN R(0, SkipWs(s, p) + 1, CSlice(acc))
  ELSE IF c = "" THEN Err(p)
  ELSE LET r == ValueAt(s, p, t, TRUE) n == Peek(s, r.p) IN
       IF r.e # 0 THEN r
       ELSE IF n = "}" THEN R(0, SkipWs(s, r.p) + 1, CSlice(Append(acc, r.v)))
       ELSE IF n = "," THEN SliceFrom(s, SkipWs(s, r.p) + 1, t, Append(acc, r.v))
       ELSE Err(r.p)
LegacyFrom(s, p, t, acc) ==
  LET c == Peek(s, p) IN
  IF c \in {",", "}", ""} THEN R(0, SkipWs(s, p), CSlice(acc))
  ELSE LET r == ValueAt(s, p, t, TRUE) n == Peek(s, r.p) IN
       IF r.e # 0 THEN r
       ELSE IF n \in {",", "}", ""} THEN R(0, SkipWs(s, r.p), CSlice(Append(acc, r.v)))
       ELSE IF n = ";" THEN LegacyFrom(s, SkipWs(s, r.p) + 1, t, Append(acc, r.v))
       ELSE Err(r.p)
MapFrom(s, p, t, acc) ==
  LET c == Peek(s, p) IN
  IF c = "}" THEN R(0, SkipWs(s, p) + 1, CMap(acc))
  ELSE IF c = "" THEN Err(p)
  ELSE LET k == StrAt(s, p) IN
       IF k.e # 0 THEN k
       ELSE IF Peek(s, k.p) # ":" THEN Err(k.p)
       ELSE LET r == ValueAt(s, SkipWs(s, k.p) + 1, t, FALSE) n == Peek(s, r.p) all == Append(acc, <<k.v, r.v>>) IN
            IF r.e # 0 THEN r
            ELSE IF n = "}" THEN R(0, SkipWs(s, r.p) + 1, CMap(all))
            ELSE IF n = "," THEN MapFrom(s, SkipWs(s, r.p) + 1, t, all)
            ELSE Err(r.p)

\* ---------------------------------------------------------------- markers
(* A definition is [name, kind, args, strict]: kind "empty", "anon" (one      *)
(* unnamed argument) or "struct"; args a sequence of [name, type, opt].        *)
RECURSIVE FirstEq(_, _), LastColon(_, _)
FirstEq(s, n) == IF n > Len(s) THEN 0 ELSE IF Char(s, n) = "=" THEN n ELSE FirstEq(s, n + 1)
LastColon(s, n) == IF n = 0 THEN 0 ELSE IF Char(s, n) = ":" THEN n ELSE LastColon(s, n - 1)
\* text is without the leading +
Split(text) ==
  LET q == FirstEq(text, 1) IN
  IF q = 0 THEN [name |-> text, long |-> text, rest |-> ""]
  ELSE LET long == SubSeq(text, 1, q - 1) c == LastColon(long, Len(long)) IN
       [long |-> long, rest |-> From(text, q + 1), name |-> IF c = 0 THEN long ELSE SubSeq(long, 1, c - 1)]
Lookup(defs, text) == \* the definition a text belongs to (0: none); the longer name wins
  LET sp == Split(text)
      named(x) == {n \in 1..Len(defs) : defs[n].name = x}
  IN IF named(sp.long) # {} THEN CHOOSE n \in named(sp.long) : TRUE
     ELSE IF named(sp.name) # {} THEN CHOOSE n \in named(sp.name) : TRUE ELSE 0

Zero(t) == IF t.ptr THEN "nil" ELSE
  CASE t.k \in {"int", "i32"} -> "i0" [] t.k = "num" -> "n0" [] t.k = "str" -> "s0:" [] t.k = "bool" -> "bF"
    [] t.k = "slice" -> "[]" [] t.k = "map" -> "{}" [] t.k = "any" -> "nil" [] t.k = "raw" -> "s0:"
\* assigned: a function from argument numbers to values
Assemble(def, got) == [n \in 1..Len(def.args) |-> IF n \in DOMAIN got THEN got[n] ELSE Zero(def.args[n].type)]
Complete(def, got) == ~def.strict \/ \A n \in 1..Len(def.args) : n \in DOMAIN got \/ def.args[n].opt \/ def.args[n].type.ptr
Res(e, vals) == [e |-> e, vals |-> vals]
End(def, s, p, got) ==
  LET t == Tok(s, p, TRUE) IN
  IF t.k = "odd" THEN Res(2, <<>>)
  ELSE IF t.k # "eof" \/ ~Complete(def, got) THEN Res(1, <<>>) ELSE Res(0, Assemble(def, got))
RECURSIVE ArgsFrom(_, _, _, _)
ArgsFrom(def, s, p, got) ==
  LET t == Tok(s, p, TRUE)
      q == Tok(s, t.b, TRUE)
      known == {n \in 1..Len(def.args) : def.args[n].name = Text(s, t)}
  IN IF TokErr(t) # 0 THEN Res(TokErr(t), <<>>)
     ELSE IF t.k # "id" \/ q.k # "=" \/ known = {} THEN Res(1, <<>>)
     ELSE LET n == CHOOSE n \in known : TRUE
              r == ValueAt(s, q.b, def.args[n].type, FALSE)
              got2 == (n :> r.v) @@ got
          IN IF r.e # 0 THEN Res(r.e, <<>>)
             ELSE IF n \in DOMAIN got THEN Res(2, <<>>)     \* an argument given twice: not specified
             ELSE IF At(s, r.p) = "" THEN End(def, s, r.p, got2)
             ELSE IF Peek(s, r.p) # "," THEN Res(1, <<>>)
             ELSE ArgsFrom(def, s, SkipWs(s, r.p) + 1, got2)
ParseMarker(def, text) ==
  LET sp == Split(text)
      s == IF def.kind = "struct" /\ Len(sp.long) > Len(sp.name) THEN SubSeq(sp.long, Len(sp.name) + 2, Len(sp.long)) \o "=" \o sp.rest ELSE sp.rest
      none == [n \in {} |-> ""]
  IN IF s = "" \/ def.kind = "empty" THEN End(def, s, 1, none)
     ELSE IF def.kind = "anon" THEN
        LET r == ValueAt(s, 1, def.args[1].type, FALSE) IN
        IF r.e # 0 THEN Res(r.e, <<>>) ELSE End(def, s, r.p, (1 :> r.v))
     ELSE ArgsFrom(def, s, 1, none)
=============================================================================
