----------------------------- MODULE MarkerDoc -----------------------------
(* The documentation text of a comment.  lines are the lines of a doc comment  *)
(* without // (block = FALSE), or the lines between /* and */ (block = TRUE).  *)
EXTENDS Lex, Integers
Blank == {" ", "\t", "\r"}
RECURSIVE TrimL(_), TrimR(_)
TrimL(s) == IF s # "" /\ Char(s, 1) \in Blank THEN TrimL(SubSeq(s, 2, Len(s))) ELSE s
TrimR(s) == IF s # "" /\ Char(s, Len(s)) \in Blank THEN TrimR(SubSeq(s, 1, Len(s) - 1)) ELSE s
Trim(s) == TrimL(TrimR(s))
IsMarker(l) == IsPrefixStr("+", Trim(l))
Low == {Char("abcdefghijklmnopqrstuvwxyz0123456789", n) : n \in 1..36}
\* directives such as //go:generate are not documentation
Directive(l) ==
  \/ \E d \in {"line ", "extern ", "export "} : IsPrefixStr(d, l)
  \/ \E c \in 2..(Len(l) - 1) : Char(l, c) = ":" /\ Char(l, c + 1) \in Low /\ \A n \in 1..(c - 1) : Char(l, n) \in Low
Plain(l) == IF IsPrefixStr(" ", l) THEN SubSeq(l, 2, Len(l)) ELSE l       \* one space belongs to the comment syntax
\* no blank lines at the ends, single ones inside
RECURSIVE Squeeze(_, _)
Squeeze(ls, prev) == IF ls = <<>> THEN <<>>
  ELSE IF Head(ls) = "" /\ prev = "" THEN Squeeze(Tail(ls), "")
  ELSE <<Head(ls)>> \o Squeeze(Tail(ls), Head(ls))
DropLastBlank(ls) == IF ls # <<>> /\ ls[Len(ls)] = "" THEN SubSeq(ls, 1, Len(ls) - 1) ELSE ls
Fence(l) == IsPrefixStr("```", l) \/ IsPrefixStr("~~~", l)
RECURSIVE Public(_, _)
Public(ls, code) == IF ls = <<>> THEN <<>> ELSE
  LET l == Head(ls) c == IF Fence(l) THEN ~code ELSE code IN
  IF ~c /\ IsPrefixStr("TODO", l) THEN Public(Tail(ls), c)
  ELSE IF ~c /\ IsPrefixStr("---", l) THEN <<>>
  ELSE <<l>> \o Public(Tail(ls), c)
Text(block, lines) ==
  LET kept == IF block THEN lines ELSE SelectSeq(lines, LAMBDA l : ~IsMarker(l) /\ ~Directive(l))
      bare == [n \in 1..Len(kept) |-> TrimR(IF block THEN kept[n] ELSE Plain(kept[n]))]
      sq == DropLastBlank(Squeeze(bare, ""))
  IN [n \in 1..Len(sq) |-> IF block THEN Trim(sq[n]) ELSE sq[n]]
Doc(block, lines) == Join(Public(Text(block, lines), FALSE), "\n")
=============================================================================
