----------------------------- MODULE FlattenRun -----------------------------
(* How flattening goes through references: types are asked for one after the *)
(* other, a type's references are resolved in any order, what was flattened  *)
(* before is taken from the cache. The result for a type must not depend on  *)
(* any of that, whatever the types refer to (themselves and each other too). *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Names, Asks,
          Careful          \* TRUE: results that depend on where they were made are not kept
VARIABLES graph,           \* what each type refers to
          cache,           \* flattened types: the set of paths of references below the type
          stack,           \* types being flattened: [t, todo, tree, partial]
          asked, last      \* number of asks, and the last answer: <<type, tree>>
vars == <<graph, cache, stack, asked, last>>

RECURSIVE Canon(_, _)
Canon(t, inside) == {<<>>} \cup UNION {{<<f>> \o p : p \in IF f \in inside THEN {<<"cut">>} ELSE Canon(f, inside \cup {f})} : f \in graph[t]}

Init == /\ graph \in [Names -> SUBSET Names]
        /\ cache = << >> /\ stack = <<>> /\ asked = 0 /\ last = <<>>
Has(t) == \E i \in 1..Len(cache) : cache[i][1] = t
Cached(t) == cache[CHOOSE i \in 1..Len(cache) : cache[i][1] = t][2]
Ask(t) ==
  /\ stack = <<>> /\ asked < Asks
  /\ asked' = asked + 1
  /\ IF Has(t) THEN last' = <<t, Cached(t)>> /\ stack' = stack
     ELSE stack' = <<[t |-> t, todo |-> graph[t], tree |-> {<<>>}, partial |-> FALSE]>> /\ last' = <<>>
  /\ UNCHANGED <<graph, cache>>
Top == stack[Len(stack)]
Under(f, tree) == {<<f>> \o p : p \in tree}
Put(st, f, tree) == [st EXCEPT ![Len(st)].todo = @ \ {f}, ![Len(st)].tree = @ \cup Under(f, tree)]
Resolve(f) ==
  /\ stack # <<>> /\ f \in Top.todo
  /\ LET on == {i \in 1..Len(stack) : stack[i].t = f} IN
     IF on # {} THEN
       LET i == CHOOSE i \in on : TRUE
           cyc == IF i < Len(stack) THEN i..Len(stack) ELSE {}
           st == [j \in 1..Len(stack) |-> IF j \in cyc THEN [stack[j] EXCEPT !.partial = TRUE] ELSE stack[j]]
       IN stack' = Put(st, f, {<<"cut">>})
     ELSE IF Has(f) THEN stack' = Put(stack, f, Cached(f))
     ELSE stack' = Append(stack, [t |-> f, todo |-> graph[f], tree |-> {<<>>}, partial |-> FALSE])
  /\ UNCHANGED <<graph, cache, asked, last>>
Finish ==
  /\ stack # <<>> /\ Top.todo = {}
  /\ cache' = IF Top.partial /\ Careful THEN cache ELSE Append(cache, <<Top.t, Top.tree>>)
  /\ LET rest == SubSeq(stack, 1, Len(stack) - 1) IN
     IF rest = <<>> THEN stack' = <<>> /\ last' = <<Top.t, Top.tree>>
     ELSE stack' = Put(rest, Top.t, Top.tree) /\ last' = last
  /\ UNCHANGED <<graph, asked>>
Next == (\E t \in Names : Ask(t) \/ Resolve(t)) \/ Finish
Spec == Init /\ [][Next]_vars
Canonical == last # <<>> => last[2] = Canon(last[1], {last[1]})
CacheRight == \A i \in 1..Len(cache) : cache[i][2] = Canon(cache[i][1], {cache[i][1]})
Finite == Len(stack) <= Cardinality(Names)
=============================================================================
