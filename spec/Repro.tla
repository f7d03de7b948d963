-------------------------------- MODULE Repro --------------------------------
(* What a generated file is a function of. A run is of some generators over   *)
(* some packages with sources of some version; a file belongs to a generator  *)
(* and is made from some packages (its scope, for a version of the sources):  *)
(* the object code of a package from that package, a CRD from the packages of *)
(* its group, roles and webhooks from all packages that mark them. The file   *)
(* is a function of the version of the sources and of those packages of its   *)
(* scope the run is over - and of nothing else: not of the order of packages  *)
(* (but for webhooks) or generators, of other packages and generators, of     *)
(* what was in the directory before, of the number of processors or of the    *)
(* order of any map.                                                          *)
EXTENDS Naturals, Sequences, FiniteSets
Scope(art, run) == {p \in {art.scope[run.src][i] : i \in 1..Len(art.scope[run.src])} : p \in {run.roots[i] : i \in 1..Len(run.roots)}}
Runs(art, run) == \E i \in 1..Len(run.gens) : run.gens[i] = art.gen
(* webhooks are listed package by package, in the order of the packages given *)
Key(art, run) == <<run.src, IF art.gen = "webhook" THEN <<run.how, SelectSeq(run.order, LAMBDA p : p \in Scope(art, run))>> ELSE <<>>, Scope(art, run)>>
(* concerned: whether the run may write the file at all *)
Concerned(art, run) == Runs(art, run) /\ Scope(art, run) # {}
=============================================================================
