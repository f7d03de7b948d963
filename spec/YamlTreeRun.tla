---------------------------- MODULE YamlTreeRun ----------------------------
(* Histories of edits of small trees, and the laws that edits obey.           *)
EXTENDS YamlTree, TLC
CONSTANTS Keys, Depth, Edits
Leaf == {Node("s", "x", "!!str"), Node("seq", "", "!!seq")}
RECURSIVE Trees(_)
Trees(d) == IF d = 0 THEN Leaf ELSE
  LET sub == Trees(d - 1) IN
  sub \cup {MapNode(<<>>)} \cup { MapNode(<<KeyNode(k), v>>) : k \in Keys, v \in sub }
      \cup { MapNode(<<KeyNode(k[1]), v, KeyNode(k[2]), w>>) : k \in {q \in Keys \X Keys : q[1] # q[2]}, v \in sub, w \in sub }
Paths == UNION {[1..n -> Keys] : n \in 0..3}
Vals == {Node("s", "new", "!!str"), MapNode(<<KeyNode("b"), Node("s", "n", "!!str")>>)}
None0 == [op |-> "none", path |-> <<>>, val |-> Node("none", "", ""), before |-> Node("none", "", ""), res |-> None]
VARIABLES t, n, last
vars == <<t, n, last>>
Init == t \in Trees(Depth) /\ n = 0 /\ last = None0
Do(op, p, v, r) == /\ n < Edits /\ n' = n + 1 /\ last' = [op |-> op, path |-> p, val |-> v, before |-> t, res |-> r] /\ t' = IF r.err THEN t ELSE r.t
Next == \E p \in Paths : (\E v \in Vals : Do("set", p, v, Set(t, p, v))) \/ Do("del", p, None.t, Del(t, p))
Spec == Init /\ [][Next]_vars

Prefix(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p
Apart(p, q) == ~Prefix(p, q) /\ ~Prefix(q, p)
b == last.before
(* what is set is read back, what is deleted is not found *)
ReadBack == last.op = "set" /\ ~last.res.err => Get(t, last.path) = Ok(last.val)
Gone == last.op = "del" /\ ~last.res.err => ~Get(t, last.path).found
(* everything apart from the path is as before, in particular the order *)
Apartness == last.op # "none" => \A q \in Paths : Apart(last.path, q) => Get(t, q).found = Get(b, q).found /\ (Get(b, q).found => Get(t, q) = Get(b, q))
KeySeq(x) == [i \in 1..Pairs(x) |-> x.e[2*i - 1]]
Filter(s, k) == SelectSeq(s, LAMBDA x : x.v # k)
Order == last.op # "none" => \A q \in Paths : LET x == Get(b, q) y == Get(t, q) IN
  (Prefix(q, last.path) /\ q # last.path /\ x.found /\ x.t.k = "map") =>
     y.found /\ y.t.k = "map" /\ Filter(KeySeq(y.t), last.path[Len(q) + 1]) = Filter(KeySeq(x.t), last.path[Len(q) + 1])
             /\ (last.op = "set" /\ At(x.t, last.path[Len(q) + 1]) # 0 => KeySeq(y.t) = KeySeq(x.t))
(* errors exactly at values that are no mappings, and they change nothing *)
Through(x, p) == \E i \in 0..(Len(p) - 1) : LET g == Get(x, SubSeq(p, 1, i)) IN g.found /\ g.t.k # "map"
Errors == /\ (last.op = "set" => last.res.err = Through(b, last.path))
          /\ (last.op = "del" => last.res.err = (last.path = <<>> \/ Through(b, last.path)))
          /\ (last.op # "none" /\ last.res.err => t = b)
(* deleting what is not there changes nothing; setting and deleting twice is as once *)
Missing == last.op = "del" /\ last.path # <<>> /\ ~Through(b, last.path) /\ ~Get(b, last.path).found => t = b
Twice == last.op # "none" /\ ~last.res.err => (IF last.op = "set" THEN Set(t, last.path, last.val) ELSE Del(t, last.path)) = Ok(t)
(* setting what was missing and deleting it again leaves nothing but the mappings on the way *)
=============================================================================
