----------------------------- MODULE CrdSpecConf -----------------------------
(* An observation: a case, and reps: the different results of its runs, each    *)
(* [failed, files], a file being [file, header, group, kind, list, plural,      *)
(* singular, short, categories, scope, name, annotations, labels, preserve,     *)
(* status, versions]; a version is an Entry with meta, the text of the schema   *)
(* of its metadata, and nested, the fields of the metadata embedded in its      *)
(* spec (where it has one).                                                     *)
EXTENDS Conf, CrdSpec
Of(r, gk) == {f \in Rng(r.files) : f.group = gk[1] /\ f.kind = gk[2]}
GKs(r) == {<<f.group, f.kind>> : f \in Rng(r.files)}
TheOf(r, gk) == CHOOSE f \in Of(r, gk) : TRUE
Ent(v) == [name |-> v.name, served |-> v.served, storage |-> v.storage, deprecated |-> v.deprecated, warning |-> v.warning, status |-> v.status,
           scale |-> v.scale, columns |-> v.columns, selectable |-> v.selectable, desc |-> v.desc, props |-> v.props]
(* C06 *)
VersionsRight(o, r) == \A gk \in Crds(o) \cap GKs(r) : LET vs == TheOf(r, gk).versions IN [i \in 1..Len(vs) |-> Ent(vs[i])] = Versions(o, gk)
(* C07 *)
OnePerKind(o, r) == GKs(r) = Crds(o) /\ \A gk \in GKs(r) : Cardinality(Of(r, gk)) = 1 /\ Len(r.files) = Cardinality(GKs(r))
NamesRight(o, r) == \A f \in Rng(r.files) : LET gk == <<f.group, f.kind>> N == NameChoices(o, gk) IN
   /\ f.list = f.kind \o "List"
   /\ f.plural \in {n.plural : n \in N} /\ f.singular \in {n.singular : n \in N} /\ f.short \in {n.short : n \in N}
   /\ f.categories \in {n.categories : n \in N} /\ f.scope \in {n.scope : n \in N}
   /\ f.name = f.plural \o "." \o f.group /\ f.file = FileName(gk, f.plural)
PairsOf(s) == {x : x \in Rng(s)}
MetaRight(o, r) == \A f \in Rng(r.files) : LET gk == <<f.group, f.kind>> IN
   /\ \E v \in {x \in Rng(f.annotations) : x[1] = GeneratorKey} : v[2] = o.tool /\ Rng(f.annotations) = {x \in Pairs(o, gk, "annotations") : x[1] # GeneratorKey} \cup {v}
   /\ Rng(f.labels) = Pairs(o, gk, "labels")
   /\ f.extra = <<>> /\ f.header = Header(o) /\ f.preserve = o.opts.preserve
   /\ \A i \in 1..Len(f.versions) : f.versions[i].meta = "{\"type\":\"object\"}"
   /\ \A i \in 1..Len(f.versions) : f.versions[i].nested # <<"absent">> => Rng(f.versions[i].nested) = IF o.opts.embedded THEN MetaFields ELSE {}
Bad(o, r) ==
  (IF r.failed = Fails(o) THEN {} ELSE {"failure differs"}) \cup
  (IF IOEnv.PROP = "C06" THEN (IF Fails(o) \/ VersionsRight(o, r) THEN {} ELSE {"versions differ"})
   ELSE IF Fails(o) THEN {}
   ELSE (IF OnePerKind(o, r) THEN {} ELSE {"files differ"})
        \cup (IF GKs(r) \subseteq Crds(o) THEN (IF NamesRight(o, r) THEN {} ELSE {"names differ"}) \cup (IF MetaRight(o, r) THEN {} ELSE {"metadata differs"}) ELSE {}))
Judge(o) == UNION {Bad(o, r) : r \in Rng(o.reps)}
            \cup (IF Len(o.reps) = 1 \/ IOEnv.PROP # "C06" THEN {} ELSE {"results differ between runs"})
Next == ~done /\ done' = TRUE /\ l' = l /\ Report(l, Judge(Trace[l]))
=============================================================================
