----------------------------- MODULE DeepSelect -----------------------------
(* Which types get which copy methods, and what makes generation fail.        *)
EXTENDS Naturals, Sequences, FiniteSets
SRng(s) == {s[i] : i \in 1..Len(s)}
Object == "k8s.io/apimachinery/pkg/runtime.Object"
PkgOn(p) == IF p.enable # <<>> THEN p.enable[1] ELSE p.legacy # <<>> /\ p.legacy[1] = "package"
Root(t) == IF t.root # <<>> THEN t.root[1] ELSE Object \in SRng(t.ifaces)
On(p, t) == IF t.enable # <<>> THEN t.enable[1] ELSE IF t.legacy # <<>> THEN t.legacy[1] = "true" ELSE PkgOn(p) \/ Root(t)
OwnCopier(t) == SRng(t.manual) \cap {"DeepCopy", "DeepCopyInto"} # {}
Copied(t) == t.exported /\ t.kind \notin {"alias", "ptr"} /\ (t.kind = "basic" => OwnCopier(t))
Selected(p, t) == On(p, t) /\ Copied(t)
PtrReceiver(t) == t.kind \notin {"slice", "map"}
Methods(p, t) == IF ~Selected(p, t) THEN {} ELSE ({"DeepCopy", "DeepCopyInto"} \cup (IF Root(t) THEN {"DeepCopyObject"} ELSE {})) \ SRng(t.manual)

(* What can be copied. A term is basic, named (by index), ptr, slice, map, struct (a literal) or something else. *)
RECURSIVE Resolve(_, _), PlainTerm(_, _)
Resolve(p, x) == IF x.k = "named" /\ p.types[x.n].kind = "alias" THEN Resolve(p, p.types[x.n].term) ELSE x
RECURSIVE Under(_, _)
Under(p, x) == IF x.k = "named" THEN Under(p, p.types[x.n].term) ELSE x
PlainTerm(p, x) ==
  LET u == Under(p, x) IN u.k = "basic" \/ (u.k = "struct" /\ \A i \in 1..Len(u.e) : PlainTerm(p, u.e[i]))
Copier(p, x) == x.k = "named" /\ OwnCopier(p.types[x.n])
RECURSIVE Bad(_, _, _), BadIn(_, _, _, _)
(* The contents of what has a name (a named slice or map) can be literals of structs if these are plain;   *)
(* otherwise the literals would have to be named (in make and new) or have methods, and neither is possible. *)
Bad(p, y, seen) ==
  LET x == Resolve(p, y) u == Under(p, x) named == x.k = "named" next == IF named THEN seen \cup {x.n} ELSE seen IN
  IF Copier(p, x) \/ (named /\ x.n \in seen) THEN FALSE
  ELSE CASE u.k = "basic" -> FALSE
         [] u.k = "struct" -> x.k = "struct" /\ ~PlainTerm(p, x)
         [] u.k = "ptr" -> BadIn(p, u.e[1], next, FALSE)
         [] u.k = "slice" -> BadIn(p, u.e[1], next, named)
         [] u.k = "map" -> ~PlainTerm(p, u.e[2]) \/ (~named /\ Resolve(p, u.e[2]).k = "struct") \/ BadIn(p, u.e[1], next, named)
         [] OTHER -> TRUE
BadIn(p, y, seen, named) ==
  IF Resolve(p, y).k = "struct" THEN ~named \/ ~PlainTerm(p, y) ELSE Bad(p, y, seen)
BadType(p, t) ==
  LET u == Under(p, t.term) IN
  CASE u.k = "struct" -> \E i \in 1..Len(u.e) : Bad(p, u.e[i], {})
    [] OTHER -> Bad(p, [k |-> "named", n |-> t.idx, e |-> <<>>], {})
Fails(p) == \E i \in 1..Len(p.types) : LET t == p.types[i] IN Selected(p, t) /\ ~OwnCopier(t) /\ BadType(p, t)
=============================================================================
