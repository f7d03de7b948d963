----------------------------- MODULE TypeCheck -----------------------------
(* Type checking packages at the same time. An activation is the checking of  *)
(* a package on behalf of the packages before it in the sequence naming it,   *)
(* the first element being the caller. It takes the package's lock, and if    *)
(* the package is not yet checked looks for its references, has them checked  *)
(* by activations of their own, waits for these, and type-checks the package, *)
(* for which it takes the lock of every import for a moment.                  *)
(* Mode "right" is that; the others are wrong: "nolock" takes no package      *)
(* lock, "early" says that a package is checked before its references are,    *)
(* "nowait" does not wait, "global" holds one lock for all packages.          *)
EXTENDS TypeTrace, TLC
CONSTANTS N, Callers, Mode, Extra, History
Pkgs == 1..N
None == <<>>
VARIABLES refs, imps, calls, pc, todo, owner, checked, seen, times, hist
vars == <<refs, imps, calls, pc, todo, owner, checked, seen, times, hist>>
Pairs == {x \in Pkgs \X Pkgs : x[2] < x[1]}
Init == /\ refs \in SUBSET Pairs
        /\ imps \in (IF Extra THEN {refs \cup e : e \in SUBSET Pairs} ELSE {refs})
        /\ calls \in [1..Callers -> Pkgs] /\ \A i \in 1..(Callers-1) : calls[i] >= calls[i+1]
        /\ pc = [a \in {<<i, calls[i]>> : i \in 1..Callers} |-> "lock"] /\ todo = [a \in {} |-> {}]
        /\ owner = [p \in Pkgs |-> None] /\ checked = {} /\ seen = [p \in Pkgs |-> {}] /\ times = [p \in Pkgs |-> <<0, 0>>] /\ hist = <<>>
Pkg(a) == a[Len(a)]
Refs(p) == {q \in Pkgs : <<p, q>> \in refs}
Imps(p) == {q \in Pkgs : <<p, q>> \in imps}
Event(k, p) == hist' = (IF History THEN Append(hist, <<k, p>>) ELSE hist)
LockOf(p) == IF Mode = "global" THEN 1 ELSE p
Lock(a) == /\ pc[a] = "lock" /\ (IF Mode = "nolock" THEN UNCHANGED owner ELSE owner[LockOf(Pkg(a))] = None /\ owner' = [owner EXCEPT ![LockOf(Pkg(a))] = a])
           /\ pc' = [pc EXCEPT ![a] = "look"] /\ UNCHANGED <<refs, imps, calls, todo, checked, seen, times, hist>>
Release(a) == owner' = [owner EXCEPT ![LockOf(Pkg(a))] = IF @ = a THEN None ELSE @]
Look(a) == /\ pc[a] = "look"
           /\ (IF Pkg(a) \in checked THEN pc' = [pc EXCEPT ![a] = "end"] /\ Release(a) ELSE pc' = [pc EXCEPT ![a] = "collect"] /\ UNCHANGED owner)
           /\ UNCHANGED <<refs, imps, calls, todo, checked, seen, times, hist>>
Collect(a) == /\ pc[a] = "collect"
              /\ pc' = [[b \in {Append(a, q) : q \in Refs(Pkg(a))} |-> "lock"] @@ pc EXCEPT ![a] = "wait"]
              /\ times' = [times EXCEPT ![Pkg(a)][1] = @ + 1] /\ Event("c", Pkg(a))
              /\ (IF Mode = "early" THEN checked' = checked \cup {Pkg(a)} /\ Release(a) ELSE UNCHANGED <<checked, owner>>)
              /\ UNCHANGED <<refs, imps, calls, todo, seen>>
Wait(a) == /\ pc[a] = "wait" /\ (Mode = "nowait" \/ \A q \in Refs(Pkg(a)) : pc[Append(a, q)] = "end")
           /\ pc' = [pc EXCEPT ![a] = "import"] /\ todo' = (a :> Imps(Pkg(a))) @@ todo
           /\ UNCHANGED <<refs, imps, calls, owner, checked, seen, times, hist>>
Import(a) == /\ pc[a] = "import" /\ todo[a] # {}
             /\ LET q == CHOOSE x \in todo[a] : \A y \in todo[a] : x <= y IN
                /\ Mode = "nolock" \/ Mode = "global" \/ owner[q] = None
                /\ todo' = [todo EXCEPT ![a] = @ \ {q}]
                /\ seen' = [seen EXCEPT ![Pkg(a)] = @ \cup (IF times[q][2] > 0 THEN {q} ELSE {})]
             /\ UNCHANGED <<refs, imps, calls, pc, owner, checked, times, hist>>
Type(a) == /\ pc[a] = "import" /\ todo[a] = {} /\ pc' = [pc EXCEPT ![a] = "mark"]
           /\ times' = [times EXCEPT ![Pkg(a)][2] = @ + 1] /\ Event("t", Pkg(a)) /\ UNCHANGED <<refs, imps, calls, todo, owner, checked, seen>>
Mark(a) == /\ pc[a] = "mark" /\ pc' = [pc EXCEPT ![a] = "end"] /\ checked' = checked \cup {Pkg(a)} /\ Release(a)
           /\ UNCHANGED <<refs, imps, calls, todo, seen, times, hist>>
Ended == \A a \in DOMAIN pc : pc[a] = "end"
Next == (\E a \in DOMAIN pc : Lock(a) \/ Look(a) \/ Collect(a) \/ Wait(a) \/ Import(a) \/ Type(a) \/ Mark(a)) \/ (Ended /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
Roots == {calls[i] : i \in 1..Callers}
Once == \A p \in Pkgs : times[p][1] <= 1 /\ times[p][2] <= 1
DepsFirst == \A p \in Pkgs : times[p][2] > 0 => Refs(p) \subseteq seen[p]
Needed == Ended => {p \in Pkgs : times[p][2] > 0} = Closure(refs, Roots) /\ checked = Closure(refs, Roots)
CallDone == \A i \in 1..Callers : pc[<<i, calls[i]>>] = "end" => \A p \in Closure(refs, {calls[i]}) : p \in checked
Prefix == History => PrefixOK(refs, Roots, hist)
Whole == (History /\ Ended) => TraceOK(refs, Roots, hist)
=============================================================================
