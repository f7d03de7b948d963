----------------------------- MODULE WebhookRun -----------------------------
(* The run as the generator makes it: package by package, marker by marker,  *)
(* converting, then checking, then writing; and the properties of its result. *)
EXTENDS Webhook
CONSTANT MaxMarkers
Base == [mutating |-> TRUE, name |-> "b", groups |-> <<"core">>, resources |-> <<"pods">>, versions |-> <<"v1">>,
         verbs |-> <<"create">>, failure |-> "fail", match |-> "", side |-> "None", timeout |-> <<>>, arv |-> <<"v1">>,
         reinv |-> "", url |-> "", path |-> "/x", svcName |-> "", svcNs |-> "", port |-> <<>>, whv |-> <<>>]
Variants == {Base, [Base EXCEPT !.name = "a"], [Base EXCEPT !.mutating = FALSE], [Base EXCEPT !.mutating = FALSE, !.reinv = "never"],
             [Base EXCEPT !.url = "https://u"], [Base EXCEPT !.url = "https://u", !.path = "", !.failure = "IGNORE"],
             [Base EXCEPT !.side = "some"], [Base EXCEPT !.timeout = <<31>>], [Base EXCEPT !.timeout = <<30>>, !.name = "a", !.verbs = <<"*">>],
             [Base EXCEPT !.timeout = <<0>>, !.reinv = "IFNEEDED"], [Base EXCEPT !.arv = <<>>], [Base EXCEPT !.whv = <<"v1beta1">>],
             [Base EXCEPT !.match = "exact", !.port = <<443>>, !.svcName = "s"], [Base EXCEPT !.match = "none"]}
Cfgs == {<<>>, <<[mutating |-> FALSE, name |-> "v"], [mutating |-> TRUE, name |-> "m"]>>,
         <<[mutating |-> TRUE, name |-> "m"], [mutating |-> TRUE, name |-> "n"]>>}
VARIABLES pkgs, pi, wi, sorted, mut, val, names, state
vars == <<pkgs, pi, wi, sorted, mut, val, names, state>>
Init == /\ \E np \in 1..2 : \E n \in 0..MaxMarkers : \E f \in [1..n -> Variants] : \E c \in [1..np -> Cfgs] : \E cut \in 0..n :
             /\ np = 1 => cut = n
             /\ pkgs = IF np = 1 THEN <<[cfgs |-> c[1], whs |-> f]>>
                       ELSE <<[cfgs |-> c[1], whs |-> SubSeq(f, 1, cut)], [cfgs |-> c[2], whs |-> SubSeq(f, cut + 1, n)]>>
        /\ pi = 1 /\ wi = 0 /\ sorted = <<>> /\ mut = <<>> /\ val = <<>> /\ names = <<"", "">> /\ state = "read"
OpenPkg == /\ state = "read" /\ wi = 0 /\ pi <= Len(pkgs)
           /\ IF Duplicate(pkgs[pi]) THEN state' = "failed" /\ UNCHANGED <<wi, sorted, names>>
              ELSE /\ state' = state /\ wi' = 1 /\ sorted' = StableSortBy(pkgs[pi].whs, ByName)
                   /\ names' = << IF CfgsOf(pkgs[pi], TRUE) # <<>> THEN CfgsOf(pkgs[pi], TRUE)[1].name ELSE names[1],
                                  IF CfgsOf(pkgs[pi], FALSE) # <<>> THEN CfgsOf(pkgs[pi], FALSE)[1].name ELSE names[2] >>
           /\ UNCHANGED <<pkgs, pi, mut, val>>
Convert == /\ state = "read" /\ wi > 0 /\ wi <= Len(sorted)
           /\ LET m == sorted[wi] IN
              IF (m.path = "") = (m.url = "") \/ (m.match # "" /\ ~Known(MatchTable, m.match)) \/ (\E v \in Rng(m.whv) : v # "v1")
              THEN state' = "failed" /\ UNCHANGED <<mut, val, wi>>
              ELSE /\ wi' = wi + 1 /\ state' = state
                   /\ IF m.mutating THEN mut' = Append(mut, m) /\ val' = val ELSE val' = Append(val, m) /\ mut' = mut
           /\ UNCHANGED <<pkgs, pi, sorted, names>>
ClosePkg == state = "read" /\ wi > Len(sorted) /\ wi > 0 /\ pi' = pi + 1 /\ wi' = 0 /\ sorted' = <<>> /\ UNCHANGED <<pkgs, mut, val, names, state>>
Finish == /\ state = "read" /\ pi > Len(pkgs)
          /\ state' = IF \E m \in Rng(mut) \cup Rng(val) : ~Known(SideTable, m.side) \/ m.arv = <<>>
                              \/ (m.timeout \notin {<<>>, <<0>>} /\ (m.timeout[1] < 1 \/ m.timeout[1] > 30))
                      THEN "failed" ELSE "written"
          /\ UNCHANGED <<pkgs, pi, wi, sorted, mut, val, names>>
Next == OpenPkg \/ Convert \/ ClosePkg \/ Finish
Spec == Init /\ [][Next]_vars

Conv(s) == [j \in 1..Len(s) |-> Entry(s[j])]
FailsIffInvalid == (state = "failed" => Fails(pkgs)) /\ (state = "written" => ~Fails(pkgs))
EveryMarkerOnce == state = "written" =>
   /\ Len(mut) + Len(val) = Len(Concat([j \in 1..Len(pkgs) |-> pkgs[j].whs]))
   /\ Conv(mut) = Entries(pkgs, TRUE) /\ Conv(val) = Entries(pkgs, FALSE)
SortedInPackage == \A b \in BOOLEAN : \A p \in Rng(pkgs) : LET e == EntriesOf(p, b) IN
   \A a, c \in 1..Len(e) : a < c => ~LexLess(e[c].name, e[a].name)
OnlyOneClient == state = "written" => \A e \in Rng(Conv(mut)) \cup Rng(Conv(val)) : Len(e.url) + Len(e.service) = 1
NamedRight == state = "written" /\ mut # <<>> => Docs(pkgs)[1].name = (IF names[1] # "" THEN names[1] ELSE "mutating-webhook-configuration")
=============================================================================
