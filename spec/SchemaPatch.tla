---------------------------- MODULE SchemaPatch ----------------------------
(* Patching the schemas of CRD manifests. A manifest is a sequence of         *)
(* documents; a document that is a CRD (crd) has an API version supported or  *)
(* not, a group-kind gk, a top-level schema top (0: none) and versions with   *)
(* names and schemas (0: none); rest stands for all else (comments, other     *)
(* fields, order). go gives the schemas of the Go types by group-kind and     *)
(* version.                                                                   *)
EXTENDS Integers, Sequences, FiniteSets
SRange(s) == {s[i] : i \in 1..Len(s)}
Docs(ms) == UNION { {ms[i].docs[j] : j \in 1..Len(ms[i].docs)} : i \in 1..Len(ms) }
Crds(ms) == {d \in Docs(ms) : d.crd}
VersionsOf(ms, gk) == UNION { {d.versions[i].name : i \in 1..Len(d.versions)} : d \in {x \in Crds(ms) : x.gk = gk} }
New(ms, go, gk) == {g \in SRange(go) : g.gk = gk /\ g.version \in VersionsOf(ms, gk)}
Unsupported(ms) == \E d \in Crds(ms) : ~d.supported
Nameless(ms, go) == \E d \in Crds(ms) : New(ms, go, d.gk) # {} /\ \E i \in 1..Len(d.versions) : d.versions[i].name = ""
Fails(ms, go) == Unsupported(ms) \/ Nameless(ms, go)
PatchDoc(ms, go, d) ==
  IF ~d.crd \/ New(ms, go, d.gk) = {} THEN d
  ELSE [d EXCEPT !.top = 0, !.versions = [i \in 1..Len(d.versions) |->
         [d.versions[i] EXCEPT !.schema =
            LET g == {x \in New(ms, go, d.gk) : x.version = d.versions[i].name} IN IF g = {} THEN 0 ELSE (CHOOSE x \in g : TRUE).schema]]]
Patch(ms, go) == [i \in 1..Len(ms) |-> [ms[i] EXCEPT !.docs = [j \in 1..Len(ms[i].docs) |-> PatchDoc(ms, go, ms[i].docs[j])]]]
Written(ms) == {i \in 1..Len(ms) : \E j \in 1..Len(ms[i].docs) : ms[i].docs[j].crd}
=============================================================================
