----------------------------- MODULE DeepCopyRun -----------------------------
(* Copying any value of any type up to a depth, then changing original and    *)
(* copy in any way: no change of one is ever visible in the other.            *)
EXTENDS DeepCopy, TLC
CONSTANTS Depth,      \* depth of types
          MaxLen,     \* elements per object
          Steps,      \* changes made after copying
          Mode        \* "deep"; or "assign", "elements", "emptynil": generators that get it wrong
RECURSIVE Types(_)
Types(d) == IF d = 0 THEN {Basic} ELSE LET T == Types(d - 1) IN T \cup {Ptr(t) : t \in T} \cup {Slice(t) : t \in T} \cup {Map(t) : t \in T} \cup {Struct(Basic, t) : t \in T} \cup {Struct(t, t) : t \in T \ {Basic}}

(* pure contents of a type *)
RECURSIVE Contents(_)
Contents(t) ==
  CASE t.k = "b" -> {Num(0)}
    [] t.k = "st" -> {Pair(x, y) : x \in Contents(t.a), y \in Contents(t.b)}
    [] t.k = "p" -> {Nil} \cup {[k |-> "ref", c |-> <<x>>] : x \in Contents(t.e)}
    [] OTHER -> {Nil, [k |-> "ref", c |-> <<>>]} \cup {[k |-> "ref", c |-> <<x>>] : x \in Contents(t.e)}
                \cup (IF MaxLen > 1 THEN {[k |-> "ref", c |-> <<x, y>>] : x \in Contents(t.e), y \in Contents(t.e)} ELSE {})

(* laid out in a heap; with sharing, equal contents lie at the same address *)
RECURSIVE Build(_, _, _), BuildCells(_, _, _, _)
Build(h, c, share) ==
  CASE c.k \in {"b", "nil"} -> [h |-> h, v |-> c]
    [] c.k = "st" -> LET x == Build(h, c.a, share) y == Build(x.h, c.b, share) IN [h |-> y.h, v |-> Pair(x.v, y.v)]
    [] OTHER -> LET x == BuildCells(h, c.c, <<>>, share)
                    same == {a \in 1..Len(x.h) : x.h[a] = x.v} IN
                IF share /\ same # {} THEN [h |-> x.h, v |-> Ref(CHOOSE a \in same : TRUE)] ELSE [h |-> Append(x.h, x.v), v |-> Ref(Len(x.h) + 1)]
BuildCells(h, cs, acc, share) ==
  IF cs = <<>> THEN [h |-> h, v |-> acc] ELSE LET x == Build(h, Head(cs), share) IN BuildCells(x.h, Tail(cs), Append(acc, x.v), share)

VARIABLES type, h, orig, copy, gO, gC, n
vars == <<type, h, orig, copy, gO, gC, n>>
Start(t, c, share) ==
  LET b == Build(<<>>, c, share) IN
  /\ type = t /\ h = b.h /\ orig = b.v /\ copy = Nil /\ gO = Content(b.h, b.v) /\ gC = Nil /\ n = 0
Init == \E t \in Types(Depth) : \E c \in Contents(t) : \E share \in BOOLEAN : Start(t, c, share)
Copy ==
  /\ n = 0
  /\ LET x == CopyBy(Mode, type, h, orig) IN h' = x.h /\ copy' = x.v /\ gC' = Content(x.h, x.v)
  /\ n' = 1 /\ UNCHANGED <<type, orig, gO>>

(* the ways to change one cell: another number, nothing, or another reference of the same value *)
RECURSIVE Changed(_)
Changed(v) == CASE v.k = "b" -> {Num(v.n + 1)} [] v.k = "nil" -> {} [] v.k = "ref" -> {Nil} [] OTHER -> {Pair(x, v.b) : x \in Changed(v.a)} \cup {Pair(v.a, y) : y \in Changed(v.b)}
Write(a, i, v) == h' = [h EXCEPT ![a] = [@ EXCEPT ![i] = v]]
WriteOrig == n \in 1..Steps /\ \E a \in Reach(h, orig) : \E i \in 1..Len(h[a]) : \E v \in Changed(h[a][i]) :
               Write(a, i, v) /\ gO' = Content(h', orig) /\ n' = n + 1 /\ UNCHANGED <<type, orig, copy, gC>>
WriteCopy == n \in 1..Steps /\ \E a \in Reach(h, copy) : \E i \in 1..Len(h[a]) : \E v \in Changed(h[a][i]) :
               Write(a, i, v) /\ gC' = Content(h', copy) /\ n' = n + 1 /\ UNCHANGED <<type, orig, copy, gO>>
Next == Copy \/ WriteOrig \/ WriteCopy
Spec == Init /\ [][Next]_vars

(* neither sees what was done through the other *)
Invisible == Content(h, orig) = gO /\ (n > 0 => Content(h, copy) = gC)
Equal == n = 1 => gO = gC
Apart == n > 0 => Reach(h, orig) \cap Reach(h, copy) = {}
Deep == n = 1 => IsDeepCopy(h, orig, h, copy)
=============================================================================
