----------------------------- MODULE TruncateRun -----------------------------
(* The guarantees of Truncate.tla on every text of up to MaxLen characters over *)
(* four kinds of characters, as the walk of a single cursor from the limit back *)
(* to the place of the cut.                                                    *)
EXTENDS Truncate
CONSTANTS MaxLen, MaxLim
Chars == {[c |-> "a", w |-> 1, k |-> "other"], [c |-> "e", w |-> 2, k |-> "other"], [c |-> ".", w |-> 1, k |-> "end"], [c |-> " ", w |-> 1, k |-> "space"], [c |-> "w", w |-> 3, k |-> "end"]}
VARIABLES text, lim, cur, pass, res
vars == <<text, lim, cur, pass, res>>
None == [n |-> -1, dots |-> FALSE]
Init == /\ \E n \in 0..MaxLen : text \in [1..n -> Chars]
        /\ lim \in -1..MaxLim /\ cur = -1 /\ pass = "start" /\ res = None
Start == /\ pass = "start"
         /\ IF lim = 0 THEN pass' = "done" /\ res' = [n |-> 0, dots |-> FALSE] /\ cur' = cur
            ELSE IF lim < 0 \/ Bytes(text) <= lim THEN pass' = "done" /\ res' = [n |-> Len(text), dots |-> FALSE] /\ cur' = cur
            ELSE pass' = "fit" /\ cur' = Len(text) /\ res' = res
         /\ UNCHANGED <<text, lim>>
FitStep == /\ pass = "fit"
           /\ IF Bytes(Take(text, cur)) <= lim THEN pass' = "end" /\ res' = [n |-> cur, dots |-> TRUE] /\ cur' = cur
              ELSE cur' = cur - 1 /\ UNCHANGED <<pass, res>>
           /\ UNCHANGED <<text, lim>>
Search == /\ pass \in {"end", "space"}
          /\ IF cur <= 1 THEN IF pass = "end" THEN pass' = "space" /\ cur' = res.n /\ res' = res
                              ELSE pass' = "done" /\ UNCHANGED <<cur, res>>
             ELSE IF text[cur].k = pass THEN pass' = "done" /\ cur' = cur /\ res' = IF pass = "end" THEN [n |-> cur, dots |-> FALSE] ELSE [n |-> cur - 1, dots |-> TRUE]
             ELSE cur' = cur - 1 /\ UNCHANGED <<pass, res>>
          /\ UNCHANGED <<text, lim>>
Next == Start \/ FitStep \/ Search
Spec == Init /\ [][Next]_vars
Done == pass = "done"
AsSpecified == Done => res = Cut(text, lim)
ShortKept == Done /\ (lim < 0 \/ (lim > 0 /\ Bytes(text) <= lim)) => res = [n |-> Len(text), dots |-> FALSE]
WithinLimit == Done /\ lim >= 0 => Bytes(Take(text, res.n)) <= lim
NothingAtZero == Done /\ lim = 0 => res.n = 0 /\ ~res.dots
WholeSentences == Done /\ ~res.dots /\ res.n < Len(text) /\ res.n > 0 => text[res.n].k = "end"
=============================================================================
