----------------------------- MODULE HelpGenRun -----------------------------
(* Cutting documentation character by character: until the first line break  *)
(* it is summary, whose first word goes when it is the name.  All texts of up *)
(* to Max tokens.  No word is lost or made; wrong variants: the name taken as *)
(* a prefix ("prefix"), the name removed from every line ("every"), only the   *)
(* second line kept as details ("second").                                    *)
EXTENDS HelpGen
CONSTANTS Variant, Max
VARIABLES doc, pos, word, summary, details, first, line
vars == <<doc, pos, word, summary, details, first, line>>
Name == "N"
Tokens == {"N", "b", " ", "\n"}
Docs == UNION {[1..n -> Tokens] : n \in 0..Max}
\* what extracting documentation leaves: no blank lines at the ends, no two inside, no space at the ends of lines
Clean(d) == /\ d = <<>> \/ (d[1] # "\n" /\ d[Len(d)] \notin {"\n", " "})
            /\ \A i \in 2..Len(d) : ~(d[i] = "\n" /\ d[i - 1] = " ") /\ ~(i > 2 /\ d[i] = "\n" /\ d[i - 1] = "\n" /\ d[i - 2] = "\n")
Init == /\ doc \in {d \in Docs : Clean(d)} /\ pos = 1 /\ word = "" /\ summary = "" /\ details = "" /\ first = TRUE /\ line = 1
Cur == doc[pos]
Put(t) == /\ (IF line = 1 THEN summary' = summary \o t /\ UNCHANGED details
              ELSE /\ details' = (IF Variant = "second" /\ line > 2 THEN details ELSE details \o t) /\ UNCHANGED summary)
Word == /\ pos <= Len(doc) /\ Cur \notin {" ", "\n"} /\ word' = word \o Cur /\ pos' = pos + 1 /\ UNCHANGED <<doc, summary, details, first, line>>
         /\ first /\ (line = 1 \/ Variant = "every")
Keep == /\ pos <= Len(doc) /\ ~first /\ Cur # "\n" /\ Put(Cur) /\ pos' = pos + 1 /\ UNCHANGED <<doc, word, first, line>>
\* the first word is over
Over == /\ first /\ (line = 1 \/ Variant = "every") /\ (IF pos > Len(doc) THEN TRUE ELSE Cur \in {" ", "\n"})
        /\ LET named == IF Variant = "prefix" THEN IsPrefixStr(Name, word) ELSE word = Name
               rest == IF ~named THEN word ELSE IF Variant = "prefix" THEN SubSeq(word, 2, Len(word)) ELSE ""
           IN /\ Put(rest) /\ pos' = (IF named /\ pos <= Len(doc) /\ Cur = " " THEN pos + 1 ELSE pos)
        /\ first' = FALSE /\ word' = "" /\ UNCHANGED <<doc, line>>
Break == /\ pos <= Len(doc) /\ Cur = "\n" /\ (~first \/ (line > 1 /\ Variant # "every")) /\ line' = line + 1 /\ first' = (Variant = "every")
         /\ (IF line > 1 THEN Put("\n") ELSE UNCHANGED <<summary, details>>) /\ pos' = pos + 1 /\ UNCHANGED <<doc, word>>
Next == Word \/ Keep \/ Over \/ Break
Finished == pos > Len(doc) /\ ~first
RECURSIVE LinesOf(_, _)
LinesOf(d, cur) == IF d = <<>> THEN <<cur>> ELSE IF Head(d) = "\n" THEN <<cur>> \o LinesOf(Tail(d), "") ELSE LinesOf(Tail(d), cur \o Head(d))
RECURSIVE TrimNL(_)
TrimNL(s) == IF s # "" /\ Char(s, 1) \in {"\n", " "} THEN TrimNL(SubSeq(s, 2, Len(s))) ELSE s
\* words, wherever they are broken
RECURSIVE Letters(_)
Letters(s) == IF s = "" THEN "" ELSE (IF Char(s, 1) \in {" ", "\n"} THEN "" ELSE Char(s, 1)) \o Letters(SubSeq(s, 2, Len(s)))
Right == Finished =>
  LET ls == LinesOf(doc, "") h == OfLines(Name, IF doc = <<>> THEN <<>> ELSE ls) IN
  /\ [summary |-> summary, details |-> TrimNL(details)] = h
  /\ LET all == Letters(Join(doc, "")) IN Letters(h.summary \o h.details) \in {all, SubSeq(all, 2, Len(all))}
=============================================================================
