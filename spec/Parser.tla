------------------------------- MODULE Parser -------------------------------
(* The parser of API packages, as programs use it: it's asked for packages,    *)
(* schemas, flattened schemas and CRDs in any order and any number of times,   *)
(* reads what that needs, and keeps every answer.                              *)
(*                                                                             *)
(* A world is [pkgs, refs, storage]: pkgs of [name, group (absent or one),     *)
(* version, rank (the place of the version among all), types (names)], refs    *)
(* between types, written [pkg, name], and the types that have the storage     *)
(* marker. What the parser has is [loaded, schemas, flats, crds], CRDs being   *)
(* [group, kind, versions, storage (versions in order), described].            *)
EXTENDS Naturals, Sequences, FiniteSets
PRng(s) == {s[i] : i \in DOMAIN s}
Nothing == [loaded |-> {}, schemas |-> {}, flats |-> {}, crds |-> {}]
Ident(p, t) == [pkg |-> p, name |-> t]
PkgOf(w, n) == CHOOSE p \in PRng(w.pkgs) : p.name = n
RECURSIVE Reach(_, _)
Reach(w, S) == LET T == S \cup {r[2] : r \in {x \in PRng(w.refs) : x[1] \in S}} IN IF T = S THEN S ELSE Reach(w, T)
Loaded(w, st) == {p \in PRng(w.pkgs) : p.name \in st.loaded}
Known(w, st) == UNION {{Ident(p.name, t) : t \in PRng(p.types)} : p \in Loaded(w, st)}
\* reading schemas reads the packages of all they refer to
Read(w, st, S) == LET R == Reach(w, S) IN [st EXCEPT !.schemas = @ \cup R, !.loaded = @ \cup {t.pkg : t \in R}]
Flatten(w, st, S) == [Read(w, st, S) EXCEPT !.flats = @ \cup S]
HasCrd(st, g, k) == \E c \in st.crds : c.group = g /\ c.kind = k
Sources(w, st, g, k) == {p \in Loaded(w, st) : p.group = <<g>> /\ k \in PRng(p.types)}
RECURSIVE ByRank(_)
ByRank(S) == IF S = {} THEN <<>> ELSE LET p == CHOOSE x \in S : \A y \in S : x.rank <= y.rank IN <<p>> \o ByRank(S \ {p})
Names(s) == [i \in 1..Len(s) |-> s[i].version]
Crd(w, S, g, k, described) ==
  LET all == ByRank(S)
      stored == SelectSeq(all, LAMBDA p : Cardinality(S) = 1 \/ Ident(p.name, k) \in PRng(w.storage))
  IN [group |-> g, kind |-> k, versions |-> Names(all), storage |-> Names(stored), described |-> described]
\* the CRD has the versions of the packages read when it's asked for first
Define(w, st, g, k, described) ==
  LET S == Sources(w, st, g, k) IN
  IF HasCrd(st, g, k) \/ S = {} THEN st
  ELSE [Flatten(w, st, {Ident(p.name, k) : p \in S}) EXCEPT !.crds = @ \cup {Crd(w, S, g, k, described)}]
\* what cannot be stored is an error
Errors(st, st2) == Cardinality({c \in st2.crds \ st.crds : c.storage = <<>>})
Ask(w, st, a) ==
  CASE a.op = "package" -> [st EXCEPT !.loaded = @ \cup {a.pkg}]
    [] a.op = "schema"  -> Read(w, st, {Ident(a.pkg, a.name)})
    [] a.op = "flat"    -> Flatten(w, st, {Ident(a.pkg, a.name)})
    [] a.op = "crd"     -> Define(w, st, a.group, a.name, a.described)
=============================================================================
