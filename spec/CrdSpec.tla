------------------------------ MODULE CrdSpec ------------------------------
(* From packages with API types to CustomResourceDefinitions.                  *)
(*                                                                             *)
(* A case is [pkgs, opts, plural, lower]: the packages in load order, the      *)
(* options of the generator, and the default plural and the lower case form of *)
(* every kind name.  A package is [group, version, rank, skip, types]: group   *)
(* has length 0 or 1, and rank orders version names.  A type is                *)
(* [name, kind, desc, props, marks]: whether it embeds type and object         *)
(* metadata, its documentation, the fields of its spec, and its markers in     *)
(* source order, each a record with field m.                                   *)
EXTENDS Lex, Integers

Last(s) == s[Len(s)]
Marks(t, m) == SelectSeq(t.marks, LAMBDA x : x.m = m)
Has(t, m) == Marks(t, m) # <<>>

(* ------------------------------- discovery ------------------------------- *)
InGroup(p, g) == p.group = <<g>> /\ ~p.skip
GroupKinds(c) == {<<p.group[1], t.name>> : <<p, t>> \in
                    {<<p, t>> \in UNION {{<<q, u>> : u \in Rng(q.types)} : q \in Rng(c.pkgs)} : t.kind /\ ~p.skip /\ p.group # <<>>}}
(* The type of that kind in a package (none or one), and the members: all       *)
(* packages of the group that have it.                                          *)
TypeOf(p, k) == SelectSeq(p.types, LAMBDA t : t.name = k)
Members(c, gk) == {p \in Rng(c.pkgs) : InGroup(p, gk[1]) /\ TypeOf(p, gk[2]) # <<>>}
Type(p, gk) == TypeOf(p, gk[2])[1]

(* -------------------------------- versions ------------------------------- *)
Entry(p, t, single) ==
  [ name |-> p.version,
    served |-> ~Has(t, "unserved"),
    storage |-> Has(t, "storage") \/ single,
    deprecated |-> Has(t, "deprecated"),
    warning |-> IF Has(t, "deprecated") THEN Last(Marks(t, "deprecated")).warning ELSE <<>>,
    status |-> Has(t, "status"),
    scale |-> IF Has(t, "scale") THEN LET s == Last(Marks(t, "scale")) IN <<[spec |-> s.spec, status |-> s.status, selector |-> s.selector]>> ELSE <<>>,
    columns |-> LET cs == Marks(t, "column") IN [i \in 1..Len(cs) |-> cs[i].col],
    selectable |-> LET cs == Marks(t, "selectable") IN [i \in 1..Len(cs) |-> cs[i].path],
    desc |-> t.desc, props |-> t.props ]
Kept(c, gk) == {p \in Members(c, gk) : ~Has(Type(p, gk), "skip")}
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET p == CHOOSE x \in S : \A y \in S : x.rank <= y.rank IN <<p>> \o Sorted(S \ {p})
Versions(c, gk) == LET s == Sorted(Kept(c, gk)) IN [i \in 1..Len(s) |-> Entry(s[i], Type(s[i], gk), Len(s) = 1)]

(* ----------------------------- names, metadata --------------------------- *)
(* Resource markers of the versions (skipped ones as well): where they differ, *)
(* each of the names is as one of them says.                                   *)
DefaultNames(c, gk) == [plural |-> c.plural[gk[2]], singular |-> c.lower[gk[2]], short |-> <<>>, categories |-> <<>>, scope |-> "Namespaced"]
NamesOf(c, gk, r) == [ plural |-> IF r.path = "" THEN c.plural[gk[2]] ELSE r.path,
                       singular |-> IF r.singular = "" THEN c.lower[gk[2]] ELSE r.singular,
                       short |-> r.short, categories |-> r.categories, scope |-> IF r.scope = "" THEN "Namespaced" ELSE r.scope ]
Resources(c, gk) == {NamesOf(c, gk, r) : r \in UNION {Rng(Marks(Type(p, gk), "resource")) : p \in Members(c, gk)}}
NameChoices(c, gk) == LET R == Resources(c, gk) IN IF R = {} THEN {DefaultNames(c, gk)} ELSE IF Cardinality(R) = 1 THEN R ELSE R \cup {DefaultNames(c, gk)}
Pairs(c, gk, f) == UNION {UNION {Rng(IF f = "labels" THEN m.labels ELSE m.annotations) : m \in Rng(Marks(Type(p, gk), "metadata"))} : p \in Members(c, gk)}
Malformed(c, gk) == \E f \in {"labels", "annotations"} : \E x \in Pairs(c, gk, f) : Len(x) = 1
GeneratorKey == "controller-gen.kubebuilder.io/version"

(* --------------------------------- files --------------------------------- *)
Crds(c) == {gk \in GroupKinds(c) : Kept(c, gk) # {}}
NoStorage(c, gk) == ~\E i \in 1..Len(Versions(c, gk)) : Versions(c, gk)[i].storage
NoneServed(c, gk) == ~\E i \in 1..Len(Versions(c, gk)) : Versions(c, gk)[i].served
Fails(c) == \/ Crds(c) # {} /\ \E v \in Rng(c.opts.versions) : v # "v1"
            \/ \E gk \in GroupKinds(c) : Malformed(c, gk)
            \/ \E gk \in Crds(c) : NoStorage(c, gk) \/ NoneServed(c, gk)
RECURSIVE HeaderFrom(_, _, _)
HeaderFrom(ps, year, i) == IF i > Len(ps) THEN "" ELSE (IF i = 1 THEN "" ELSE " " \o year) \o ps[i] \o HeaderFrom(ps, year, i + 1)
Header(c) == HeaderFrom(c.opts.header, c.opts.year, 1)
FileName(gk, plural) == gk[1] \o "_" \o plural \o ".yaml"
MetaFields == {"name", "namespace", "labels", "annotations", "finalizers"}
=============================================================================
