------------------------------ MODULE ApplyConf ------------------------------
(* Which types of a package get apply configurations. A package has a setting *)
(* (enable, at most one value); its types are objects (they embed object      *)
(* metadata) or not, may be structs with JSON fields, have markers of their   *)
(* own (mark, at most one value), be resources or have clients, and refer to  *)
(* other types of the package.                                                *)
EXTENDS Naturals, Sequences, FiniteSets
Elems(s) == {s[i] : i \in 1..Len(s)}
Enabled(p) == p.enable # <<>> /\ p.enable[1]
(* a type's own marker always overrides the package; only objects can be asked for *)
Asked(p, t) == t.object /\ IF t.mark # <<>> THEN t.mark[1] ELSE Enabled(p) /\ (t.resource \/ t.client)
ByName(p, n) == {t \in Elems(p.types) : t.name = n}
RECURSIVE Closure(_, _)
Closure(p, S) == LET T == S \cup UNION {UNION {ByName(p, n) : n \in Elems(t.refs)} : t \in S} IN IF T = S THEN S ELSE Closure(p, T)
Reached(p) == Closure(p, {t \in Elems(p.types) : Asked(p, t)})
Generated(p) == {t.name : t \in {u \in Reached(p) : u.tagged}}
(* the package may get the files all apply configurations share *)
Involved(p) == Enabled(p) \/ \E t \in Elems(p.types) : t.mark # <<>> /\ t.mark[1]
=============================================================================
