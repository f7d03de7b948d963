----------------------------- MODULE HeaderRun -----------------------------
(* A generator that reads its header, replaces the year and writes files     *)
(* piece by piece: header tokens "Y" (for " YEAR") and others.  Variants:     *)
(* replacing only the first year, writing the header before every document,   *)
(* opening the file before the header was read.                               *)
EXTENDS Headers, Naturals
CONSTANTS Variant
VARIABLES hdr, ok, ndocs, pc, text, todo, opened, written
vars == <<hdr, ok, ndocs, pc, text, todo, opened, written>>
Tokens == {"a", "Y"}
Headers3 == UNION {[1..n -> Tokens] : n \in 0..4}
Pieces(h) == LET RECURSIVE P(_, _)
                 P(s, cur) == IF s = <<>> THEN <<cur>> ELSE IF Head(s) = "Y" THEN <<cur>> \o P(Tail(s), "") ELSE P(Tail(s), cur \o Head(s))
             IN P(h, "")
Init == /\ hdr \in Headers3 /\ ok \in BOOLEAN /\ ndocs \in 0..3 /\ pc = "read" /\ text = "" /\ todo = hdr /\ opened = FALSE /\ written = ""
Read == /\ pc = "read" /\ opened' = (Variant = "open" /\ ndocs > 0)
        /\ pc' = IF ok THEN "fill" ELSE "failed"
        /\ UNCHANGED <<hdr, ok, ndocs, text, todo, written>>
\* token by token
FillStep == /\ pc = "fill" /\ todo # <<>>
            /\ text' = text \o (IF Head(todo) # "Y" THEN Head(todo) ELSE IF Variant = "first" /\ \E i \in 1..(Len(hdr) - Len(todo)) : hdr[i] = "Y" THEN " YEAR" ELSE " 2020")
            /\ todo' = Tail(todo) /\ UNCHANGED <<hdr, ok, ndocs, pc, opened, written>>
Open == /\ pc = "fill" /\ todo = <<>> /\ pc' = IF ndocs = 0 THEN "done" ELSE "write"
        /\ opened' = (ndocs > 0) /\ written' = (IF ndocs > 0 /\ Variant # "each" THEN text ELSE "") /\ todo' = [i \in 1..ndocs |-> ToString(i)]
        /\ UNCHANGED <<hdr, ok, ndocs, text>>
Write == /\ pc = "write" /\ todo # <<>> /\ written' = written \o (IF Variant = "each" THEN text ELSE "") \o "---\n" \o Head(todo)
         /\ todo' = Tail(todo) /\ pc' = (IF Len(todo) = 1 THEN "done" ELSE "write") /\ UNCHANGED <<hdr, ok, ndocs, text, opened>>
Next == Read \/ FillStep \/ Open \/ Write
Right == /\ pc = "done" => /\ opened = (ndocs > 0)
                           /\ opened => written = Manifest(Fill(Pieces(hdr), "2020"), [i \in 1..ndocs |-> ToString(i)])
         /\ pc = "failed" => ~opened
=============================================================================
