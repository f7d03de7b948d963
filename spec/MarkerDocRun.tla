---------------------------- MODULE MarkerDocRun ----------------------------
(* All doc comments of up to MaxLines lines from a set of telling lines.      *)
EXTENDS MarkerDoc
CONSTANT MaxLines
Words == {" text", "", " +m=1", " TODO later", " ---", " ```", "\tcode", "go:generate x", " more  "}
VARIABLES lines, block
DInit == lines = <<>> /\ block \in BOOLEAN
DNext == Len(lines) < MaxLines /\ \E w \in Words : lines' = Append(lines, w) /\ block' = block
Out == Public(Text(block, lines), FALSE)
RECURSIVE IsSub(_, _)
IsSub(a, b) == IF a = <<>> THEN TRUE ELSE IF b = <<>> THEN FALSE
               ELSE IF Head(a) = Head(b) THEN IsSub(Tail(a), Tail(b)) ELSE IsSub(a, Tail(b))
\* nothing is invented, duplicated or reordered
Subsequence == IsSub(Out, [n \in 1..Len(lines) |-> IF block THEN Trim(lines[n]) ELSE TrimR(Plain(lines[n]))])
NoMarkers == ~block => \A n \in 1..Len(Out) : ~IsPrefixStr("+", Out[n])
\* without private notes and code blocks every text line is there
AllThere == (\A n \in 1..Len(lines) : lines[n] \notin {" ---", " ```"}) =>
  Cardinality({n \in 1..Len(Out) : Out[n] \in {"text", "more"}}) = Cardinality({n \in 1..Len(lines) : lines[n] \in {" text", " more  "}})
NoTodo == (\A n \in 1..Len(lines) : lines[n] # " ```") => \A n \in 1..Len(Out) : ~IsPrefixStr("TODO", Out[n]) /\ ~IsPrefixStr("---", Out[n])
=============================================================================
