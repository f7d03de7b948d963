--------------------------- MODULE TypeCheckConf ---------------------------
(* An observation of Check being called from several goroutines: the packages *)
(* referred to in ways that matter (refs, pairs), the roots asked for, the    *)
(* order in which packages were type-checked (types; seen: whether that could *)
(* be observed), the packages with type information afterwards, what each     *)
(* call found complete when it returned, and references found unresolved.     *)
EXTENDS Conf, TypeTrace
Rng(s) == {s[i] : i \in 1..Len(s)}
Judge(o) ==
  LET refs == {<<r[1], r[2]>> : r \in Rng(o.refs)} roots == Rng(o.roots) need == Closure(refs, roots)
      h == [i \in 1..Len(o.types) |-> <<"t", o.types[i]>>] IN
  IF o.hang THEN {<<"never ends">>} ELSE
  (IF ~o.seen THEN {} ELSE
    { <<"checked more than once", p>> : p \in {q \in 1..o.n : Cardinality(At(h, <<"t", q>>)) > 1} }
    \cup { <<"checked without need", p>> : p \in Rng(o.types) \ need }
    \cup { <<"not checked", p>> : p \in need \ Rng(o.types) }
    \cup { <<"checked before what it needs", r[1], r[2]>> : r \in {x \in refs : x[1] \in need /\ \E i \in At(h, <<"t", x[1]>>) : ~\E j \in 1..(i-1) : o.types[j] = x[2]} })
  \cup { <<"without information", p>> : p \in need \ Rng(o.complete) }
  \cup { <<"information without need", p>> : p \in Rng(o.complete) \ need }
  \cup { <<"unresolved", u>> : u \in Rng(o.unresolved) }
  \cup { <<"call returned early", c[1]>> : c \in {x \in Rng(o.returned) : ~(Closure(refs, {x[1]}) \subseteq Rng(x[2]))} }
  \cup { <<"errors", e>> : e \in Rng(o.errors) }
Next == ~done /\ done' = TRUE /\ l' = l /\ Report(l, {ToString(x) : x \in Judge(Trace[l])})
=============================================================================
