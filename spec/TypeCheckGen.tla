---------------------------- MODULE TypeCheckGen ----------------------------
(* Schedules of type checking to be forced upon the real one. *)
EXTENDS TypeCheck, Json
NextG == \E a \in DOMAIN pc : Lock(a) \/ Look(a) \/ Collect(a) \/ Wait(a) \/ Import(a) \/ Type(a) \/ Mark(a)
SpecG == Init /\ [][NextG]_vars
Emit == Ended => PrintT(<<"SCHED", ToJson([refs |-> refs, imps |-> imps, calls |-> calls, sched |-> hist])>>)
=============================================================================
