----------------------------- MODULE MarkerGen -----------------------------
(* Writes the cases of MarkerRound, to be replayed into the code. *)
EXTENDS Json, IOUtils, SequencesExt, MarkerRound
GInit == typ = <<>> /\ val = "" /\ txt = "" /\ shape = ""
GNext == UNCHANGED <<typ, val, txt, shape>>
Rows == UNION { {[typ |-> d[1], val |-> d[2], txt |-> x] : x \in d[3]} \cup {[typ |-> Ty("any"), val |-> d[2], txt |-> x] : x \in d[4]} : d \in Domain }
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq(Rows))
=============================================================================
