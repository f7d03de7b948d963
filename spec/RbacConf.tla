------------------------------ MODULE RbacConf ------------------------------
EXTENDS Conf, Rbac
(* An observation: the markers of the packages in source order (ms), and the  *)
(* different results (reps) the real generator gave over several runs, each   *)
(* the sequence of role documents it wrote.                                   *)
AbsRule(r) == [G |-> Rng(r.G), R |-> Rng(r.R), N |-> Rng(r.N), U |-> Rng(r.U), V |-> Rng(r.V)]
DocsOf(docs, ns) == SelectSeq(docs, LAMBDA d : d.ns = ns)
VerbsIn(o) == UNION { Rng(o.ms[i].verbs) : i \in 1..Len(o.ms) }

Permissions(o, docs) ==
  LET V == VerbsIn(o) IN
  /\ \A ns \in Namespaces(o.ms) :
       LET ds == DocsOf(docs, ns) IN
       /\ Len(ds) = 1
       /\ ds[1].kind = IF ns = "" THEN "ClusterRole" ELSE "Role"
       /\ ds[1].name = o.roleName
       /\ GrantsAll({AbsRule(ds[1].rules[i]) : i \in 1..Len(ds[1].rules)}, V) = GrantsAll(Stated(o.ms, ns), V)
  /\ \A i \in 1..Len(docs) : docs[i].ns \in Namespaces(o.ms)

Normal(o, docs) ==
  /\ Len(docs) = Cardinality({docs[i].ns : i \in 1..Len(docs)})
  /\ Strictly([i \in 1..Len(docs) |-> docs[i].ns])
  /\ \A d \in Rng(docs) :
       /\ \A r \in Rng(d.rules) : \A f \in {"G", "R", "N", "U", "V"} : Strictly(r[f])
       /\ LET abs == [i \in 1..Len(d.rules) |-> AbsRule(d.rules[i])] IN
          /\ Cardinality(Rng(abs)) = Len(abs)
          /\ NoVerbTwins(Rng(abs)) /\ StarAlone(Rng(abs))
          /\ Rng(abs) = NormalForm(Stated(o.ms, d.ns))
          /\ \A i \in 1..(Len(abs) - 1) : ~LexLess(SortKey(abs[i + 1]), SortKey(abs[i]))

Judge(o) ==
  (IF IOEnv.PROP = "R01" THEN {"permissions" : docs \in {d \in Rng(o.reps) : ~Permissions(o, d)}} ELSE {})
  \cup (IF IOEnv.PROP = "R02" THEN
          {"normal form" : docs \in {d \in Rng(o.reps) : ~Normal(o, d)}}
          \cup (IF Len(o.reps) # 1 THEN {"results differ between runs or marker orders"} ELSE {})
        ELSE {})
Next == ~done /\ done' = TRUE /\ l' = l /\ Report(l, Judge(Trace[l]))
=============================================================================
