------------------------------ MODULE HelpGen ------------------------------
(* Help made of Go documentation: the first line, without the name it starts  *)
(* with, summarises; the other lines are the details.                         *)
EXTENDS MarkerDoc, Headers
RECURSIVE WordEnd(_, _)
WordEnd(l, i) == IF i > Len(l) \/ Char(l, i) = " " THEN i ELSE WordEnd(l, i + 1)      \* where the first space is
Stripped(name, l) == LET e == WordEnd(l, 1) IN IF SubSeq(l, 1, e - 1) # name THEN l ELSE SubSeq(l, e + 1, Len(l))
RECURSIVE NoBlankStart(_)
NoBlankStart(ls) == IF ls # <<>> /\ Head(ls) = "" THEN NoBlankStart(Tail(ls)) ELSE ls
OfLines(name, ls) == IF ls = <<>> THEN [summary |-> "", details |-> ""]
  ELSE [summary |-> Stripped(name, Head(ls)), details |-> TrimL(Join(NoBlankStart(DropLastBlank(Tail(ls))), "\n"))]
Help(name, block, lines) == OfLines(name, Public(Text(block, lines), FALSE))
=============================================================================
