-------------------------------- MODULE Lex --------------------------------
(* Strings as TLC has them (Len, SubSeq, \o), with the byte order Go's      *)
(* sort.Strings uses, for printable ASCII.                                  *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

ASCII == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
Char(s, i) == SubSeq(s, i, i)
CodeTable == [c \in {Char(ASCII, i) : i \in 1..Len(ASCII)} |-> CHOOSE i \in 1..Len(ASCII) : Char(ASCII, i) = c]
Code(c) == IF c \in DOMAIN CodeTable THEN CodeTable[c] ELSE 999

RECURSIVE LexFrom(_, _, _)
LexFrom(a, b, i) ==
  IF i > Len(b) THEN FALSE
  ELSE IF i > Len(a) THEN TRUE
  ELSE LET x == Code(Char(a, i)) y == Code(Char(b, i)) IN
       IF x = y THEN LexFrom(a, b, i + 1) ELSE x < y
LexLess(a, b) == LexFrom(a, b, 1)

\* The strings of a set in order.
RECURSIVE SortedSeq(_)
SortedSeq(S) == IF S = {} THEN <<>>
                ELSE LET m == CHOOSE x \in S : \A y \in S \ {x} : LexLess(x, y)
                     IN <<m>> \o SortedSeq(S \ {m})

RECURSIVE JoinFrom(_, _, _)
JoinFrom(s, sep, i) == IF i > Len(s) THEN "" ELSE (IF i = 1 THEN "" ELSE sep) \o s[i] \o JoinFrom(s, sep, i + 1)
Join(s, sep) == JoinFrom(s, sep, 1)

Rng(s) == {s[i] : i \in 1..Len(s)}
Strictly(s) == \A i \in 1..(Len(s) - 1) : LexLess(s[i], s[i + 1])   \* sorted, no duplicates
Lower1(c) == IF c \in DOMAIN CodeTable /\ CodeTable[c] \in 34..59 THEN Char(ASCII, CodeTable[c] + 32) ELSE c
RECURSIVE LowerFrom(_, _)
LowerFrom(s, i) == IF i > Len(s) THEN "" ELSE Lower1(Char(s, i)) \o LowerFrom(s, i + 1)
Lower(s) == LowerFrom(s, 1)
RECURSIVE FlattenSeq2(_)
Concat(ss) == FlattenSeq2(ss)
FlattenSeq2(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o FlattenSeq2(Tail(ss))
\* The stable sort of a sequence by a weak order Less(_, _).
StableSortBy(s, Less(_, _)) ==
  LET rank(i) == 1 + Cardinality({j \in 1..Len(s) : Less(s[j], s[i]) \/ (j < i /\ ~Less(s[i], s[j]))})
      ranks == [i \in 1..Len(s) |-> rank(i)]
  IN [k \in 1..Len(s) |-> s[CHOOSE i \in 1..Len(s) : ranks[i] = k]]
IsPrefixStr(p, s) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
=============================================================================
