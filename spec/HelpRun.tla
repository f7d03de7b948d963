------------------------------ MODULE HelpRun ------------------------------
(* The registry as it fills: markers are registered and given help in any     *)
(* order; a listing takes the definitions in whatever order the maps give     *)
(* them and sorts them. The listing must not depend on that order. Without    *)
(* the tie on targets it does.                                                *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Names, Targets, Cats, Tie
VARIABLES reg, cat
Ids == Names \X Targets
Register(d) == reg' = reg \cup {d} /\ UNCHANGED cat
AddHelp(d, c) == d \in reg /\ cat' = [cat EXCEPT ![d] = c] /\ UNCHANGED reg
Next == \E d \in Ids : Register(d) \/ \E c \in Cats : AddHelp(d, c)
\* ranks stand for the order of texts
Less(a, b) == \/ cat[a] < cat[b] \/ (cat[a] = cat[b] /\ a[1] < b[1]) \/ (Tie /\ cat[a] = cat[b] /\ a[1] = b[1] /\ a[2] < b[2])
Perms(S) == {f \in [1..Cardinality(S) -> S] : \A i, j \in DOMAIN f : f[i] = f[j] => i = j}
Init == reg = {} /\ cat = [d \in Ids |-> 0]
Listings == {f \in Perms(reg) : \A i, j \in DOMAIN f : i < j => ~Less(f[j], f[i])}
OneListing == Cardinality(Listings) = 1
Complete == \A f \in Listings : {f[i] : i \in DOMAIN f} = reg
=============================================================================
