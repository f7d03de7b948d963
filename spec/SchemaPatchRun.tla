--------------------------- MODULE SchemaPatchRun ---------------------------
(* The generator patches the manifests one group-kind after the other, in any *)
(* order, and writes the files; every order ends in what Patch says, and a    *)
(* second run over the result changes nothing.                                *)
EXTENDS SchemaPatch
CONSTANTS GKs, Vs, MaxVersions
VARIABLES ms, go, cur, todo, unwritten, out
vars == <<ms, go, cur, todo, unwritten, out>>
Vers == UNION { {f \in [1..n -> [name : Vs, schema : {0, 1}]] : \A i, j \in 1..n : i # j => f[i].name # f[j].name} : n \in 0..MaxVersions }
Doc == {[crd |-> FALSE, supported |-> TRUE, gk |-> "", top |-> 0, versions |-> <<>>, rest |-> "r"]}
   \cup { [crd |-> TRUE, supported |-> TRUE, gk |-> g, top |-> t, versions |-> v, rest |-> "r"] : g \in GKs, t \in {0, 7}, v \in Vers }
Shapes == { <<[docs |-> <<a>>], [docs |-> <<b>>]>> : a \in Doc, b \in Doc }
GoTypes == { <<>> } \cup { <<[gk |-> g, version |-> v, schema |-> 5]>> : g \in GKs, v \in Vs }
   \cup { <<[gk |-> g, version |-> v, schema |-> 5], [gk |-> h, version |-> w, schema |-> 6]>> : g \in GKs, h \in GKs, v \in Vs, w \in Vs }
Distinct(s) == \A i, j \in 1..Len(s) : i # j => <<s[i].gk, s[i].version>> # <<s[j].gk, s[j].version>>
Init == /\ ms \in Shapes /\ go \in {s \in GoTypes : Distinct(s)}
        /\ cur = ms /\ todo = {d.gk : d \in Crds(ms)} /\ unwritten = {} /\ out = <<>>
Step(g) == [i \in 1..Len(cur) |-> [cur[i] EXCEPT !.docs = [j \in 1..Len(cur[i].docs) |-> IF cur[i].docs[j].gk = g THEN PatchDoc(ms, go, cur[i].docs[j]) ELSE cur[i].docs[j]]]]
PatchGK == \E g \in todo : /\ todo' = todo \ {g} /\ cur' = Step(g) /\ unwritten' = (IF todo' = {} THEN Written(ms) ELSE {}) /\ UNCHANGED <<ms, go, out>>
Write == todo = {} /\ \E i \in unwritten : unwritten' = unwritten \ {i} /\ out' = Append(out, i) /\ UNCHANGED <<ms, go, cur, todo>>
Next == PatchGK \/ Write
Spec == Init /\ [][Next]_vars
Ended == todo = {} /\ unwritten = {}
Right == Ended => cur = Patch(ms, go)
Stable == Patch(Patch(ms, go), go) = Patch(ms, go)
Once == Len(out) = Cardinality({out[i] : i \in 1..Len(out)})
(* a schema that is there before is kept, replaced by that of the Go type, or removed because another version has one *)
Kept == \A i \in 1..Len(ms) : \A j \in 1..Len(ms[i].docs) : LET d == ms[i].docs[j] e == Patch(ms, go)[i].docs[j] IN
          /\ e.rest = d.rest /\ Len(e.versions) = Len(d.versions)
          /\ \A k \in 1..Len(d.versions) : LET v == d.versions[k] w == e.versions[k] IN
                w.name = v.name /\ (w.schema = v.schema \/ (\E g \in SRange(go) : g.gk = d.gk /\ g.version = v.name /\ g.schema = w.schema)
                                    \/ (w.schema = 0 /\ \E g \in SRange(go) : g.gk = d.gk /\ g.version \in VersionsOf(ms, d.gk)))
=============================================================================
