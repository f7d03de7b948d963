------------------------------- MODULE CrdRun -------------------------------
(* Assembling one CRD as the generator does it: a version for every member in   *)
(* package order, then the markers of every member, one marker name after the   *)
(* other; the skip markers remove their version.  Packages and marker names     *)
(* come in any order (hash maps); the design keeps the result independent of    *)
(* it by visiting packages in version order and by applying skip last.  With    *)
(* SkipLast = FALSE other markers of a skipped version may find it gone.        *)
EXTENDS CrdSpec
CONSTANTS MaxPkgs, SkipLast
K == "Foo"
R(p, s) == [m |-> "resource", path |-> p, singular |-> "", short |-> <<>>, categories |-> <<>>, scope |-> s]
Col(x) == [m |-> "column", col |-> x]
MarkSets == { <<>>, <<[m |-> "skip"]>>, <<[m |-> "skip"], Col("a")>>, <<[m |-> "status"], Col("b"), Col("a")>>, <<[m |-> "storage"]>>, <<[m |-> "storage"], [m |-> "unserved"]>>,
              <<[m |-> "skip"], [m |-> "storage"], R("fs", "")>>, <<R("fs", "Cluster"), [m |-> "unserved"]>>,
              <<[m |-> "metadata", annotations |-> << <<"a", "1">> >>, labels |-> << <<"l">> >>]>>, <<[m |-> "deprecated", warning |-> <<"w">>], [m |-> "storage"]>> }
T(ms, v) == [name |-> K, kind |-> TRUE, desc |-> v, props |-> <<v>>, marks |-> ms]
Vs == <<"v1", "v1beta1", "v2">>
Pkg(ms, i) == [group |-> <<"g">>, version |-> Vs[i], rank |-> i, skip |-> FALSE, types |-> <<T(ms, Vs[i])>>]
gk == <<"g", K>>
VARIABLES c, pkg, todo, names, crd, failed, state
vars == <<c, pkg, todo, names, crd, failed, state>>
Init == /\ \E n \in 1..MaxPkgs : \E f \in [1..n -> MarkSets] :
              c = [pkgs |-> [i \in 1..n |-> Pkg(f[i], i)], opts |-> [versions |-> <<>>, embedded |-> FALSE, preserve |-> <<>>, header |-> <<>>, year |-> ""],
                   plural |-> [Foo |-> "foos"], lower |-> [Foo |-> "foo"]]
        /\ todo = Members(c, gk) /\ pkg = <<>> /\ names = {} /\ failed = FALSE /\ state = "markers"
        /\ crd = [names |-> DefaultNames(c, gk), annotations |-> {}, labels |-> {},
                  versions |-> LET s == Sorted(Members(c, gk)) IN [i \in 1..Len(s) |-> Entry(s[i], [Type(s[i], gk) EXCEPT !.marks = <<>>], FALSE)]]
\* the next package, in version order
Open == /\ state = "markers" /\ pkg = <<>> /\ todo # {}
        /\ pkg' = <<Sorted(todo)[1]>> /\ todo' = todo \ {pkg'[1]}
        /\ names' = {x.m : x \in Rng(Type(pkg'[1], gk).marks)}
        /\ UNCHANGED <<c, crd, failed, state>>
Idx(v) == {i \in 1..Len(crd.versions) : crd.versions[i].name = v}
ApplyAll(ms, m, v) ==
  IF m = "skip" THEN [crd EXCEPT !.versions = SelectSeq(crd.versions, LAMBDA e : e.name # v)]
  ELSE IF m = "resource" THEN [crd EXCEPT !.names = NamesOf(c, gk, Last(ms))]
  ELSE IF m = "metadata" THEN [crd EXCEPT !.annotations = @ \cup UNION {{x \in Rng(y.annotations) : Len(x) = 2} : y \in Rng(ms)},
                                          !.labels = @ \cup UNION {{x \in Rng(y.labels) : Len(x) = 2} : y \in Rng(ms)}]
  ELSE IF Idx(v) = {} THEN crd
  ELSE LET i == CHOOSE i \in Idx(v) : TRUE IN
       CASE m = "column" -> [crd EXCEPT !.versions[i].columns = @ \o [j \in 1..Len(ms) |-> ms[j].col]]
         [] m = "status" -> [crd EXCEPT !.versions[i].status = TRUE]
         [] m = "storage" -> [crd EXCEPT !.versions[i].storage = TRUE]
         [] m = "unserved" -> [crd EXCEPT !.versions[i].served = FALSE]
         [] m = "deprecated" -> [crd EXCEPT !.versions[i].deprecated = TRUE, !.versions[i].warning = Last(ms).warning]
ApplyName == /\ pkg # <<>> /\ names # {}
             /\ \E m \in names :
                  /\ SkipLast /\ m = "skip" => names = {"skip"}
                  /\ names' = names \ {m}
                  /\ crd' = ApplyAll(Marks(Type(pkg[1], gk), m), m, pkg[1].version)
                  /\ failed' = (failed \/ (m = "metadata" /\ Malformed(c, gk)) \/ (m \in {"column", "status"} /\ Idx(pkg[1].version) = {}))
             /\ UNCHANGED <<c, pkg, todo, state>>
ClosePkg == pkg # <<>> /\ names = {} /\ pkg' = <<>> /\ UNCHANGED <<c, todo, names, crd, failed, state>>
Finish == /\ state = "markers" /\ pkg = <<>> /\ todo = {}
          /\ LET one == Len(crd.versions) = 1
                 vs == IF one THEN [i \in {1} |-> [crd.versions[1] EXCEPT !.storage = TRUE]] ELSE crd.versions IN
             /\ crd' = [crd EXCEPT !.versions = vs]
             /\ IF vs = <<>> THEN state' = "nothing" /\ failed' = failed
                ELSE /\ state' = "written"
                     /\ failed' = (failed \/ (\A i \in 1..Len(vs) : ~vs[i].storage) \/ (\A i \in 1..Len(vs) : ~vs[i].served))
          /\ UNCHANGED <<c, pkg, todo, names>>
Next == Open \/ ApplyName \/ ClosePkg \/ Finish
Spec == Init /\ [][Next]_vars
Done == state # "markers"
VersionsAreTheirOwn == state = "written" => crd.versions = Versions(c, gk)
SkippedKindsAreNotWritten == Done => (state = "written") = (gk \in Crds(c))
FailsExactly == Done => failed = Fails(c)
NamesByTheirMarkers == state = "written" => \E n \in NameChoices(c, gk) : crd.names = n
=============================================================================
