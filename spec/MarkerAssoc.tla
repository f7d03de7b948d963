---------------------------- MODULE MarkerAssoc ----------------------------
(* The association as a reading machine, over all files of up to MaxItems     *)
(* items: every marker that stands in the documentation or a free block goes  *)
(* to exactly one place, source order is kept, and what lies in bodies of     *)
(* other declarations or at line ends goes nowhere.                           *)
EXTENDS MarkerCollect
CONSTANT MaxItems
D(n, t) == [name |-> n, kind |-> "anon", strict |-> TRUE, target |-> t, args |-> <<[name |-> "", type |-> Ty("int"), opt |-> FALSE]>>]
Defs == <<D("p", 0), D("t", 1), D("f", 2), D("pt", 0), D("pt", 1), D("all", 0), D("all", 1), D("all", 2)>>
Names == {"p", "t", "pt"}
VARIABLES items, st, n, where
vars == <<items, st, n, where>>
M(x) == [text |-> x \o "=" \o ToString(n), pos |-> ToString(n)]
NoFields == <<>>
AInit == items = <<>> /\ st = Start /\ n = 1 /\ where = [i \in {} |-> ""]
\* one marker per item keeps the space small; `where` says what kind of place marker i stands in
ItemOf(kind, x) ==
  CASE kind = "block" -> [k |-> "block", ms |-> <<M(x)>>]
    [] kind = "doc" -> [k |-> "type", name |-> "T" \o ToString(n), doc |-> <<M(x)>>, isStruct |-> FALSE, body |-> <<>>]
    [] kind = "type" -> [k |-> "type", name |-> "T" \o ToString(n), doc |-> <<>>, isStruct |-> FALSE, body |-> <<>>]
    [] kind = "field" -> [k |-> "type", name |-> "T" \o ToString(n), doc |-> <<>>, isStruct |-> TRUE, body |-> <<[k |-> "field", names |-> <<"A">>, doc |-> <<M(x)>>]>>]
    [] kind = "fieldblock" -> [k |-> "type", name |-> "T" \o ToString(n), doc |-> <<>>, isStruct |-> TRUE, body |-> <<[k |-> "block", ms |-> <<M(x)>>], [k |-> "field", names |-> <<"A">>, doc |-> <<>>]>>]
    [] kind = "lost" -> [k |-> "type", name |-> "T" \o ToString(n), doc |-> <<>>, isStruct |-> TRUE, body |-> <<[k |-> "field", names |-> <<"A">>, doc |-> <<>>], [k |-> "block", ms |-> <<M(x)>>]>>]
    [] kind = "other" -> [k |-> "other", doc |-> <<M(x)>>]
    [] kind = "group" -> [k |-> "group", doc |-> <<>>, body |-> <<[k |-> "block", ms |-> <<M(x)>>], [k |-> "type", name |-> "T" \o ToString(n), doc |-> <<>>, isStruct |-> FALSE, body |-> <<>>]>>]
Kinds == {"block", "doc", "type", "field", "fieldblock", "lost", "other", "group"}
ANext == /\ Len(items) < MaxItems
         /\ \E kind \in Kinds, x \in Names :
              /\ kind = "type" => x = "p"
              /\ LET it == ItemOf(kind, x) IN items' = Append(items, it) /\ st' = Step(Defs, st, it)
              /\ where' = (n :> <<kind, x>>) @@ where
         /\ n' = n + 1
Final == LET f == Steps(Defs, Start, items, 1) IN <<Node(0, "", f.pkg)>> \o f.nodes
Count(fin, i) == Cardinality({<<a, b>> \in (1..Len(fin)) \X (1..MaxItems) : b <= Len(fin[a].ms) /\ fin[a].ms[b].pos = ToString(i)})
Once(fin) == \A i \in DOMAIN where : Count(fin, i) = IF where[i][1] \in {"type", "lost", "other"} THEN 0 ELSE 1
\* positions ascend in every node
Sorted(fin) == \A a \in 1..Len(fin) : \A b \in 1..(Len(fin[a].ms) - 1) : LexLess(fin[a].ms[b].pos, fin[a].ms[b + 1].pos)
\* a block marker known for types belongs to the type that follows it directly, else to the package
Claimed(fin) == \A i \in DOMAIN where : where[i][1] = "block" =>
   LET next == IF i < Len(items) THEN where[i + 1][1] ELSE "end"
       totype == next \in {"doc", "type", "field", "fieldblock", "lost"} /\ where[i][2] # "p"
       home == CHOOSE a \in 1..Len(fin) : \E b \in 1..Len(fin[a].ms) : fin[a].ms[b].pos = ToString(i)
   IN IF totype THEN fin[home].name = "T" \o ToString(i + 1) ELSE fin[home].target = 0
Good == LET fin == Final IN Once(fin) /\ Sorted(fin) /\ Claimed(fin)
\* reading item by item is the same as reading the file
Incremental == LET f == Steps(Defs, Start, items, 1) IN f.nodes = st.nodes /\ f.pkg = st.pkg \o st.pend
=============================================================================
