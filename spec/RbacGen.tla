------------------------------ MODULE RbacGen ------------------------------
(* Writes every case of the bounded merge model, to be replayed into the code. *)
EXTENDS Json, IOUtils, SequencesExt, RbacMerge
Cases == { f \in [1..2 -> Markers] : TRUE }
GInit == ms = {} /\ todo = {} /\ table = {} /\ pass = 99
GNext == UNCHANGED vars
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq({ [ms |-> f] : f \in Cases }))
=============================================================================
