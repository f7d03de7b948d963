------------------------------ MODULE ReproRun ------------------------------
(* The design: generators gather their items from the packages in whatever    *)
(* order maps and package lists give, and write them sorted; what they wrote  *)
(* before is hidden from them. Runs over any packages follow one another in   *)
(* one directory while the sources change. Every file then is a function of   *)
(* its key. It is not if the order is not sorted away (Sorted), if generated  *)
(* code is read again (Hidden) or if results of packages outside the run are  *)
(* kept (Forget).                                                             *)
EXTENDS Repro, TLC
CONSTANTS Sorted, Hidden, Forget, MaxRuns
VARIABLES disk, known, hist, memo
vars == <<disk, known, hist, memo>>
Pkgs == {"p1", "p2"}
Srcs == {"A", "B"}
(* the items a package of a version has for the group's file *)
Items == [A |-> [p1 |-> {1, 3}, p2 |-> {2}], B |-> [p1 |-> {3}, p2 |-> {2, 4}]]
Arts == { [path |-> "group", gen |-> "crd", scope |-> [A |-> <<"p1", "p2">>, B |-> <<"p1", "p2">>]],
          [path |-> "p1/zz", gen |-> "object", scope |-> [A |-> <<"p1">>, B |-> <<"p1">>]] }
Orders(S) == {f \in [1..Cardinality(S) -> S] : \A i, j \in DOMAIN f : f[i] = f[j] => i = j}
Ascending(S) == CHOOSE f \in Orders(S) : \A i, j \in DOMAIN f : i < j => f[i] < f[j]
Old(a) == IF Hidden \/ disk[a.path] = <<>> THEN {} ELSE {disk[a.path][1][i] : i \in DOMAIN disk[a.path][1]}
Init == disk = [p \in {"group", "p1/zz"} |-> <<>>] /\ known = {} /\ hist = 0 /\ memo = {}
Lists == {<<"p1">>, <<"p2">>, <<"p1", "p2">>, <<"p2", "p1">>}
Run(gens, roots, src) ==
  LET r == [gens |-> gens, roots |-> roots, src |-> src, order |-> roots, how |-> ""]
      A == {a \in Arts : Concerned(a, r)}
      items(a) == UNION {Items[src][p] : p \in Scope(a, r)} \cup Old(a) \cup (IF Forget THEN {} ELSE memo) IN
  /\ hist < MaxRuns /\ hist' = hist + 1
  /\ memo' = memo \cup UNION {items(a) : a \in A}
  /\ \E w \in [A -> UNION {Orders(items(a)) : a \in A}] :
       /\ \A a \in A : w[a] \in Orders(items(a)) /\ (Sorted => w[a] = Ascending(items(a)))
       /\ disk' = [p \in DOMAIN disk |-> IF \E a \in A : a.path = p THEN <<w[CHOOSE a \in A : a.path = p]>> ELSE disk[p]]
       /\ known' = known \cup {<<a.path, Key(a, r), w[a]>> : a \in A}
Next == \E gens \in {<<"crd">>, <<"object">>, <<"crd", "object">>, <<"object", "crd">>}, roots \in Lists, src \in Srcs : Run(gens, roots, src)
Spec == Init /\ [][Next]_vars
Function == \A k1, k2 \in known : k1[1] = k2[1] /\ k1[2] = k2[2] => k1[3] = k2[3]
(* the disk holds, for every file written, what its last run's key says *)
Latest == \A p \in DOMAIN disk : disk[p] # <<>> => \E k \in known : k[1] = p /\ k[3] = disk[p][1]
=============================================================================
