------------------------------ MODULE Truncate ------------------------------
(* Limiting the length of descriptions.  A text is a sequence of characters    *)
(* [c, w, k]: the character, the bytes it takes, and its kind: "end" (of a      *)
(* sentence), "space" or "other".                                              *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
RECURSIVE Bytes(_)
Bytes(t) == IF t = <<>> THEN 0 ELSE t[1].w + Bytes(Tail(t))
Str(t) == LET RECURSIVE f(_) f(i) == IF i > Len(t) THEN "" ELSE t[i].c \o f(i + 1) IN f(1)
Take(t, n) == SubSeq(t, 1, n)
(* The characters that fit into the limit. *)
Fit(t, lim) == LET S == {n \in 0..Len(t) : Bytes(Take(t, n)) <= lim} IN CHOOSE n \in S : \A m \in S : m <= n
(* The last character of the kind that is not the first one. *)
LastOf(t, n, k) == LET S == {i \in 2..n : t[i].k = k} IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : j <= i
(* What remains of the text: how many characters, and whether dots follow. *)
Cut(t, lim) ==
  IF lim < 0 \/ Bytes(t) <= lim THEN [n |-> Len(t), dots |-> FALSE]
  ELSE IF lim = 0 THEN [n |-> 0, dots |-> FALSE]
  ELSE LET n == Fit(t, lim) e == LastOf(t, n, "end") s == LastOf(t, n, "space") IN
       IF e > 0 THEN [n |-> e, dots |-> FALSE]
       ELSE IF s > 0 THEN [n |-> s - 1, dots |-> TRUE]
       ELSE [n |-> n, dots |-> TRUE]
Shortened(t, lim) == LET x == Cut(t, lim) IN Str(Take(t, x.n)) \o (IF x.dots THEN "..." ELSE "")
(* A schema is [desc, rest, kids]: its description, everything else about it     *)
(* as text, and the schemas in it as a sequence of <<place, schema>>.           *)
RECURSIVE Limited(_, _)
Limited(s, lim) == [desc |-> Shortened(s.desc, lim), rest |-> s.rest, kids |-> [i \in 1..Len(s.kids) |-> <<s.kids[i][1], Limited(s.kids[i][2], lim)>>]]
=============================================================================
