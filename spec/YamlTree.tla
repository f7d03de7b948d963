------------------------------ MODULE YamlTree ------------------------------
(* Trees of YAML nodes and edits at paths of mapping keys. A node has a kind  *)
(* k ("map", "seq", "s" for scalars, others), a text v, a tag t, comments c,  *)
(* a style s (-1: any), and children e: keys and values in turn for mappings. *)
EXTENDS Integers, Sequences, FiniteSets
Node(k, v, t) == [k |-> k, v |-> v, t |-> t, c |-> "", s |-> -1, e |-> <<>>]
KeyNode(key) == Node("s", key, "!!str")
MapNode(es) == [Node("map", "", "!!map") EXCEPT !.e = es]
Pairs(t) == Len(t.e) \div 2
(* the position of a key's value among the children, 0 if there is none *)
At(t, key) == LET hit == {i \in 1..Pairs(t) : t.e[2*i - 1].v = key} IN
              IF hit = {} THEN 0 ELSE 2 * (CHOOSE i \in hit : \A j \in hit : i <= j)
Ok(t) == [err |-> FALSE, found |-> TRUE, t |-> t]
None == [err |-> FALSE, found |-> FALSE, t |-> Node("none", "", "")]
Err == [None EXCEPT !.err = TRUE]

RECURSIVE Get(_, _), Nest(_, _), Set(_, _, _), Del(_, _)
Get(t, path) ==
  IF path = <<>> THEN Ok(t)
  ELSE IF t.k # "map" THEN Err
  ELSE LET i == At(t, Head(path)) IN IF i = 0 THEN None ELSE Get(t.e[i], Tail(path))
Nest(path, val) == IF path = <<>> THEN val ELSE MapNode(<<KeyNode(Head(path)), Nest(Tail(path), val)>>)
Replace(t, i, r) == IF r.err THEN Err ELSE Ok([t EXCEPT !.e[i] = r.t])
Set(t, path, val) ==
  IF path = <<>> THEN Ok(val)
  ELSE IF t.k # "map" THEN Err
  ELSE LET i == At(t, Head(path)) IN
       IF i = 0 THEN Ok([t EXCEPT !.e = @ \o <<KeyNode(Head(path)), Nest(Tail(path), val)>>])
       ELSE Replace(t, i, Set(t.e[i], Tail(path), val))
Del(t, path) ==
  IF path = <<>> \/ t.k # "map" THEN Err
  ELSE LET i == At(t, Head(path)) IN
       IF i = 0 THEN Ok(t)
       ELSE IF Len(path) = 1 THEN Ok([t EXCEPT !.e = SubSeq(@, 1, i - 2) \o SubSeq(@, i + 1, Len(@))])
       ELSE Replace(t, i, Del(t.e[i], Tail(path)))

(* y is as x demands *)
RECURSIVE Same(_, _, _)
Same(x, y, comments) ==
  /\ x.k = y.k /\ x.v = y.v /\ x.t = y.t /\ Len(x.e) = Len(y.e)
  /\ (comments => x.c = y.c /\ (x.s = y.s \/ x.s = -1))
  /\ \A i \in 1..Len(x.e) : Same(x.e[i], y.e[i], comments)
=============================================================================
