---------------------------- MODULE DeepCopyConf ----------------------------
(* An observation: a value, what the generated methods made of it, and the    *)
(* value afterwards, each a tree whose nodes list the addresses of the cells  *)
(* that can be changed through them (a). Values of types with own copying     *)
(* methods (m) count how often they were copied in their first field.         *)
EXTENDS Conf, FiniteSets
Rng(s) == {s[i] : i \in 1..Len(s)}
RECURSIVE Cells(_), Same(_, _)
Cells(x) == Rng(x.a) \cup UNION {Cells(x.c[i]) : i \in 1..Len(x.c)}
Same(x, y) ==
  /\ x.k = y.k /\ x.v = y.v /\ x.i = y.i /\ x.m = y.m /\ Len(x.c) = Len(y.c)
  /\ \A i \in 1..Len(x.c) : IF x.m /\ i = 1 THEN y.c[1].i = x.c[1].i + 1 ELSE Same(x.c[i], y.c[i])
Judge(o) ==
  IF o.panic # "" THEN {"panic"}
  ELSE (IF ~o.dyn \/ ~Same(o.orig, o.copy) THEN {"the copy is not equal"} ELSE {})
       \cup (IF Cells(o.orig) \cap Cells(o.copy) # {} THEN {"the copy shares memory with the original"} ELSE {})
       \cup (IF o.orig # o.after THEN {"copying changed the original"} ELSE {})
Next == ~done /\ done' = TRUE /\ l' = l /\ Report(l, Judge(Trace[l]))
=============================================================================
