------------------------------- MODULE Rbac -------------------------------
(* RBAC generation: markers -> rules per namespace -> normal form.          *)
(*                                                                          *)
(* A marker is a record of sequences groups, resources, names, urls, verbs  *)
(* and a namespace (as written).  A rule is a record of sets G R N U V.     *)
(* The meaning of rules is the set of permissions they grant; generation    *)
(* must keep it exactly, whatever order the merge passes take rules in.     *)
EXTENDS Lex

GroupName(g) == IF g = "core" THEN "" ELSE g

\* What a rule grants: <<"res", group, resource, name, verb>> and <<"url", u, verb>>.
\* No resource name means every name; the verb * stands for every verb.
ANYNAME == "#any"
VerbSet(V, verbs) == IF "*" \in V THEN V \cup verbs \cup {"*"} ELSE V
Grants(r, verbs) ==
  LET ns == IF r.N = {} THEN {ANYNAME} ELSE r.N
      vs == VerbSet(r.V, verbs)
  IN  { <<"res", g, x, n, v>> : g \in r.G, x \in r.R, n \in ns, v \in vs }
        \cup { <<"url", u, v>> : u \in r.U, v \in vs }
GrantsAll(rs, verbs) == UNION { Grants(r, verbs) : r \in rs }

\* The rules one marker contributes: one per resource, or one without resource.
RuleOf(m, res) == [G |-> {GroupName(g) : g \in Rng(m.groups)}, R |-> res, N |-> Rng(m.names),
                   U |-> Rng(m.urls), V |-> Rng(m.verbs)]
Split(m) == IF m.resources = <<>> THEN {RuleOf(m, {})} ELSE {RuleOf(m, {x}) : x \in Rng(m.resources)}
Stated(ms, ns) == UNION { Split(ms[i]) : i \in {j \in 1..Len(ms) : ms[j].ns = ns} }
Namespaces(ms) == { ms[i].ns : i \in 1..Len(ms) }

(* The merge passes, as functions of sets of rules: rules equal but in one   *)
(* dimension become one; after each pass rules equal but in their verbs too. *)
Buckets(rs, Key(_)) == { { r \in rs : Key(r) = k } : k \in { Key(r) : r \in rs } }
UnionOf(b, f) == UNION { r[f] : r \in b }
Fuse(b) == [G |-> UnionOf(b, "G"), R |-> UnionOf(b, "R"), N |-> UnionOf(b, "N"),
            U |-> UnionOf(b, "U"), V |-> UnionOf(b, "V")]
KeyV(r) == <<r.G, r.R, r.N, r.U>>
KeyR(r) == <<r.G, r.N, r.U, r.V>>
KeyG(r) == <<r.R, r.N, r.U, r.V>>
KeyU(r) == <<r.G, r.R, r.N, r.V>>
MergeV(rs) == { Fuse(b) : b \in Buckets(rs, KeyV) }
MergeR(rs) == MergeV({ Fuse(b) : b \in Buckets(rs, KeyR) })
MergeG(rs) == MergeV({ Fuse(b) : b \in Buckets(rs, KeyG) })
MergeU(rs) == MergeV({ Fuse(b) : b \in Buckets(rs, KeyU) })
Star(r) == IF "*" \in r.V THEN [r EXCEPT !.V = {"*"}] ELSE r
NormalForm(rs) == { Star(r) : r \in MergeU(MergeG(MergeR(MergeV(rs)))) }

\* The order of the rules in the file.
SortKey(r) == Join(SortedSeq(r.G), "&") \o " + " \o Join(SortedSeq(r.R), "&") \o " + " \o
              Join(SortedSeq(r.N), "&") \o " + " \o Join(SortedSeq(r.U), "&")

(* Properties of a set of rules. *)
SameMeaning(rs, ss, verbs) == GrantsAll(rs, verbs) = GrantsAll(ss, verbs)
NoVerbTwins(rs) == \A r, s \in rs : r # s => KeyV(r) # KeyV(s)
StarAlone(rs) == \A r \in rs : "*" \in r.V => r.V = {"*"}
=============================================================================
