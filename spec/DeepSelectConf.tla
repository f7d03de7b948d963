--------------------------- MODULE DeepSelectConf ---------------------------
(* An observation: the types of a package with their markers, and the methods *)
(* in the generated file (if any), whether an error was reported, and whether *)
(* the package compiles with the file.                                        *)
EXTENDS Conf, DeepSelect
Own(p) == {i \in 1..Len(p.types) : p.types[i].own}
Expected(p) == UNION { {<<p.types[i].name, m, PtrReceiver(p.types[i])>> : m \in Methods(p, p.types[i])} : i \in Own(p) }
FailsOwn(p) == \E i \in Own(p) : LET t == p.types[i] IN Selected(p, t) /\ ~OwnCopier(t) /\ BadType(p, t)
Judge(o) ==
  LET got == {<<o.methods[i][1], o.methods[i][2], o.methods[i][3]>> : i \in 1..Len(o.methods)} IN
  IF FailsOwn(o) THEN (IF o.failed THEN {} ELSE {<<"types that cannot be copied are not reported">>})
  ELSE (IF o.failed THEN {<<"refused">>} ELSE {})
       \cup (IF got # Expected(o) THEN {<<"missing", Expected(o) \ got, "besides", got \ Expected(o)>>} ELSE {})
       \cup (IF Cardinality(got) # Len(o.methods) THEN {<<"methods generated twice">>} ELSE {})
       \cup (IF o.file # (Expected(o) # {}) THEN {<<"file">>} ELSE {})
       \cup (IF ~o.compiles THEN {<<"does not compile">>} ELSE {})
       \cup (IF o.sameagain THEN {} ELSE {<<"another run gives another file">>})
Next == ~done /\ done' = TRUE /\ l' = l /\ Report(l, Judge(Trace[l]))
=============================================================================
