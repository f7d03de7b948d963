------------------------------ MODULE DeepCopy ------------------------------
(* Values of Go types over a heap, and what copying them deeply means.        *)
(* A heap is a sequence of objects (an address is an index), an object the    *)
(* sequence of its cells: one for what a pointer points to, one per element   *)
(* of a slice, one per entry of a map.                                        *)
EXTENDS Naturals, Sequences, FiniteSets
Basic == [k |-> "b"]
Ptr(t) == [k |-> "p", e |-> t]
Slice(t) == [k |-> "s", e |-> t]
Map(t) == [k |-> "m", e |-> t]
Struct(a, b) == [k |-> "st", a |-> a, b |-> b]
Num(n) == [k |-> "b", n |-> n]
Nil == [k |-> "nil"]
Ref(a) == [k |-> "ref", a |-> a]
Pair(v, w) == [k |-> "st", a |-> v, b |-> w]

(* a value may be copied by assignment alone if it holds no reference *)
RECURSIVE Plain(_)
Plain(t) == CASE t.k = "b" -> TRUE [] t.k = "st" -> Plain(t.a) /\ Plain(t.b) [] OTHER -> FALSE

(* the pure content of a value: what it is apart from addresses *)
RECURSIVE Content(_, _)
Content(h, v) ==
  CASE v.k \in {"b", "nil"} -> v
    [] v.k = "st" -> Pair(Content(h, v.a), Content(h, v.b))
    [] OTHER -> [k |-> "ref", c |-> [i \in 1..Len(h[v.a]) |-> Content(h, h[v.a][i])]]
(* the objects reachable from a value *)
RECURSIVE Reach(_, _)
Reach(h, v) ==
  CASE v.k \in {"b", "nil"} -> {}
    [] v.k = "st" -> Reach(h, v.a) \cup Reach(h, v.b)
    [] OTHER -> {v.a} \cup UNION { Reach(h, h[v.a][i]) : i \in 1..Len(h[v.a]) }

(* For which types a generator assigns instead of copying: "deep" is right, the others are ways to get it wrong. *)
Assigns(mode, t) ==
  CASE mode = "assign" -> t.k \in {"b", "m"} \/ (t.k = "st" /\ Plain(t.a))
    [] mode = "elements" -> Plain(t)
    [] OTHER -> Plain(t)
(* Copying gives the heap with new objects and the value of the copy. *)
RECURSIVE CopyBy(_, _, _, _), CopyCells(_, _, _, _, _)
CopyBy(mode, t, h, v) ==
  IF Assigns(mode, t) \/ v.k \in {"b", "nil"} THEN [h |-> h, v |-> v]
  ELSE IF t.k = "st" THEN
    LET x == CopyBy(mode, t.a, h, v.a) y == CopyBy(mode, t.b, x.h, v.b) IN [h |-> y.h, v |-> Pair(x.v, y.v)]
  ELSE IF mode = "elements" /\ t.k = "s" THEN [h |-> Append(h, h[v.a]), v |-> Ref(Len(h) + 1)]
  ELSE IF mode = "emptynil" /\ h[v.a] = <<>> THEN [h |-> h, v |-> Nil]
  ELSE LET x == CopyCells(mode, t.e, h, h[v.a], <<>>) IN [h |-> Append(x.h, x.v), v |-> Ref(Len(x.h) + 1)]
CopyCells(mode, t, h, cells, acc) ==
  IF cells = <<>> THEN [h |-> h, v |-> acc]
  ELSE LET x == CopyBy(mode, t, h, Head(cells)) IN CopyCells(mode, t, x.h, Tail(cells), Append(acc, x.v))

DeepCopy(t, h, v) == CopyBy("deep", t, h, v)
IsDeepCopy(h, v, g, w) == Content(h, v) = Content(g, w) /\ Reach(h, v) \cap Reach(g, w) = {}
=============================================================================
