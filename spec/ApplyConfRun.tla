---------------------------- MODULE ApplyConfRun ----------------------------
(* How it is done: the generator goes through the types in any order and      *)
(* gives those that are asked for the mark of a client, taking it from those  *)
(* that are not; then all types reachable from those with a client are        *)
(* generated, except objects' clients without metadata, which are left out    *)
(* even if they are used. Both must agree with what was asked for, and what   *)
(* is generated must be closed (or the code does not compile).                *)
EXTENDS ApplyConf, TLC
CONSTANTS Strip, OnlyObjects, PkgFirst
VARIABLES pkg, client, todo, front, seen, phase
vars == <<pkg, client, todo, front, seen, phase>>
Opt == {<<>>, <<TRUE>>, <<FALSE>>}
Ty(n, o, m, r, c, refs) == [name |-> n, object |-> o, tagged |-> TRUE, mark |-> m, resource |-> r, client |-> c, refs |-> refs]
Pkgs == { [enable |-> e, types |-> <<Ty("a", TRUE, m1, r1, c1, f1), Ty("b", o2, m2, r2, c2, f2), Ty("c", FALSE, m3, FALSE, FALSE, <<>>)>>] :
            e \in Opt, m1 \in Opt, r1 \in BOOLEAN, c1 \in BOOLEAN, f1 \in {<<>>, <<"b">>, <<"c">>}, o2 \in BOOLEAN, m2 \in Opt, r2 \in BOOLEAN, c2 \in BOOLEAN, f2 \in {<<>>, <<"c">>, <<"a">>}, m3 \in Opt }
Names(p) == {t.name : t \in Elems(p.types)}
Init == /\ pkg \in {p \in Pkgs : \A t \in Elems(p.types) : (~t.object => ~t.resource /\ ~t.client)}
        /\ client = {t.name : t \in {u \in Elems(pkg.types) : u.client}} /\ todo = Names(pkg) /\ front = {} /\ seen = {} /\ phase = "mark"
T(n) == CHOOSE t \in Elems(pkg.types) : t.name = n
Wants(t) == IF t.mark # <<>> THEN t.mark[1] ELSE Enabled(pkg) /\ t.resource
Stops == IF PkgFirst THEN ~Enabled(pkg) ELSE ~Enabled(pkg) /\ \A t \in Elems(pkg.types) : ~Wants(t)
Mark == /\ phase = "mark" /\ ~Stops
        /\ \E n \in todo : LET t == T(n) IN
             /\ todo' = todo \ {n}
             /\ client' = IF Wants(t) THEN (IF OnlyObjects /\ ~t.object THEN client ELSE client \cup {n})
                          ELSE IF Strip /\ (~Enabled(pkg) \/ t.mark # <<>>) THEN client \ {n} ELSE client
        /\ UNCHANGED <<pkg, front, seen, phase>>
Go == /\ phase = "mark" /\ (Stops \/ todo = {}) /\ phase' = (IF Stops THEN "end" ELSE "reach") /\ front' = (IF Stops THEN {} ELSE client) /\ UNCHANGED <<pkg, client, todo, seen>>
Reach == /\ phase = "reach" /\ \E n \in front : seen' = seen \cup {n} /\ front' = (front \cup Elems(T(n).refs)) \ (seen \cup {n}) /\ UNCHANGED <<pkg, client, todo, phase>>
End == phase = "reach" /\ front = {} /\ phase' = "end" /\ UNCHANGED <<pkg, client, todo, front, seen>>
Next == Mark \/ Go \/ Reach \/ End
Spec == Init /\ [][Next]_vars
Made == {n \in seen : ~(n \in client /\ ~T(n).object)}
Right == phase = "end" => Made = Generated(pkg)
Closed == phase = "end" => \A n \in Made : Elems(T(n).refs) \subseteq Made
=============================================================================
