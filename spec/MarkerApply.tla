---------------------------- MODULE MarkerApply ----------------------------
(* The design of marker application: markers written in any order, of which  *)
(* some depend on what others set, are applied by stages. Whatever the order *)
(* in which they are written, the outcome must be the same, as far as        *)
(* markers of the same kind keep theirs.                                     *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS MaxMarkers, Staged
\* kind, value, stage, the type it needs ("" none), the type it sets ("" none), what it adds to
Table == << [kind |-> "Type", v |-> "array", stage |-> 1, needs |-> {"string", "array", "integer", "object"}, list |-> FALSE],
            [kind |-> "Type", v |-> "string", stage |-> 1, needs |-> {"string", "array", "integer", "object"}, list |-> FALSE],
            [kind |-> "ListType", v |-> "map", stage |-> 2, needs |-> {"array"}, list |-> FALSE],
            [kind |-> "ListType", v |-> "set", stage |-> 2, needs |-> {"array"}, list |-> FALSE],
            [kind |-> "Keys", v |-> "k1", stage |-> 4, needs |-> {"array"}, list |-> TRUE],
            [kind |-> "Keys", v |-> "k2", stage |-> 4, needs |-> {"array"}, list |-> TRUE],
            [kind |-> "IntOrString", v |-> "true", stage |-> 1, needs |-> {"string", "array", "integer", "object"}, list |-> FALSE],
            [kind |-> "MaxLength", v |-> "3", stage |-> 4, needs |-> {"string"}, list |-> FALSE],
            [kind |-> "Maximum", v |-> "5", stage |-> 4, needs |-> {"integer"}, list |-> FALSE],
            [kind |-> "Default", v |-> "{}", stage |-> 4, needs |-> {"string", "array", "integer", "object"}, list |-> FALSE],
            [kind |-> "KubeDefault", v |-> "1", stage |-> 3, needs |-> {"string", "array", "integer", "object"}, list |-> FALSE],
            [kind |-> "MapType", v |-> "atomic", stage |-> 4, needs |-> {"object"}, list |-> FALSE],
            [kind |-> "StructType", v |-> "granular", stage |-> 5, needs |-> {"object"}, list |-> FALSE],
            [kind |-> "Rule", v |-> "r1", stage |-> 4, needs |-> {"string", "array", "integer", "object"}, list |-> TRUE],
            [kind |-> "Rule", v |-> "r2", stage |-> 4, needs |-> {"string", "array", "integer", "object"}, list |-> TRUE] >>
VARIABLES written, todo, schema, errors, base
vars == <<written, todo, schema, errors, base>>
Attr(k) == IF k \in {"Default", "KubeDefault"} THEN "default" ELSE IF k \in {"MapType", "StructType"} THEN "maptype" ELSE k
Attrs == {Attr(Table[i].kind) : i \in DOMAIN Table}
Fresh(t) == [a \in Attrs |-> IF a = "Type" THEN <<t>> ELSE <<>>]
Start == base = "" /\ written = <<>> /\ todo = <<>> /\ schema = Fresh("") /\ errors = {}
Write == /\ base = ""
         /\ \E t \in {"string", "array", "integer", "object"}, n \in 1..MaxMarkers : \E w \in {w \in [1..n -> DOMAIN Table] : \A i, j \in 1..n : i # j => w[i] # w[j]} :
              base' = t /\ written' = w /\ todo' = w /\ schema' = Fresh(t) /\ errors' = {}
Fits(m, s) == /\ (m.kind = "MaxLength" /\ s["IntOrString"] # <<>>) \/ s["Type"][1] \in m.needs
              /\ m.kind = "Keys" => s["ListType"] = <<"map">>
Do(m, s) == IF m.list THEN [s EXCEPT ![Attr(m.kind)] = Append(@, m.v)]
            ELSE IF m.kind = "Default" /\ s["Type"] = <<"array">> THEN [s EXCEPT !["default"] = <<"[]">>] ELSE [s EXCEPT ![Attr(m.kind)] = <<m.v>>]
First(q) == IF ~Staged THEN 1 ELSE CHOOSE i \in DOMAIN q : \A j \in DOMAIN q : Table[q[j]].stage > Table[q[i]].stage \/ (Table[q[j]].stage = Table[q[i]].stage /\ j >= i)
Cut(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
Apply == /\ todo # <<>>
         /\ LET i == First(todo) m == Table[todo[i]]
            IN /\ todo' = Cut(todo, i)
               /\ IF Fits(m, schema) THEN schema' = Do(m, schema) /\ UNCHANGED errors ELSE errors' = errors \cup {todo[i]} /\ UNCHANGED schema
         /\ UNCHANGED <<written, base>>
Next == Write \/ Apply
Spec == Start /\ [][Next]_vars

\* The outcome stated without any order: every kind by itself, in the order written.
Of(k) == SelectSeq(written, LAMBDA i : Table[i].kind = k)
LastOf(k, ok(_)) == LET q == SelectSeq(Of(k), ok) IN IF q = <<>> THEN <<>> ELSE <<Table[q[Len(q)]].v>>
Yes(i) == TRUE
FinalType == LET t == LastOf("Type", Yes) IN IF t = <<>> THEN base ELSE t[1]
FinalList == IF FinalType = "array" THEN LastOf("ListType", Yes) ELSE <<>>
Vals(q) == [i \in DOMAIN q |-> Table[q[i]].v]
Outcome ==
  [a \in Attrs |->
    CASE a = "Type" -> <<FinalType>>
      [] a = "ListType" -> FinalList
      [] a = "Keys" -> IF FinalType = "array" /\ FinalList = <<"map">> THEN Vals(Of("Keys")) ELSE <<>>
      [] a = "IntOrString" -> LastOf("IntOrString", Yes)
      [] a = "MaxLength" -> IF FinalType = "string" \/ Of("IntOrString") # <<>> THEN LastOf("MaxLength", Yes) ELSE <<>>
      [] a = "Maximum" -> IF FinalType = "integer" THEN LastOf("Maximum", Yes) ELSE <<>>
      [] a = "default" -> IF Of("Default") # <<>> THEN <<IF FinalType = "array" THEN "[]" ELSE "{}">> ELSE LastOf("KubeDefault", Yes)
      [] a = "maptype" -> IF FinalType # "object" THEN <<>> ELSE IF Of("StructType") # <<>> THEN LastOf("StructType", Yes) ELSE LastOf("MapType", Yes)
      [] OTHER -> Vals(Of("Rule"))]
\* A kind is reported exactly when its markers have no effect because they do not fit.
Misfit(i) == LET m == Table[i] IN
  CASE m.kind = "MaxLength" -> ~(FinalType = "string" \/ Of("IntOrString") # <<>>)
    [] m.kind = "Keys" -> ~(FinalType = "array" /\ FinalList = <<"map">>)
    [] OTHER -> FinalType \notin m.needs
Done == base # "" /\ todo = <<>>
OrderFree == Done => schema = Outcome
AllReported == Done => errors = {written[i] : i \in {i \in DOMAIN written : Misfit(written[i])}}
=============================================================================
