------------------------------ MODULE RbacMerge ------------------------------
(* The merge as the generator runs it: passes over tables of rules that are  *)
(* taken out of hash maps, so in any order.  One action moves one rule.      *)
EXTENDS Rbac
CONSTANTS MaxMarkers

Groups == {<<"core">>, <<"a">>, <<"core", "a">>}
Markers == [groups : Groups, resources : {<<"r1">>, <<"r1", "r2">>}, names : {<<>>}, urls : {<<>>},
            verbs : {<<"get">>, <<"list">>, <<"*", "get">>}, ns : {""}]
        \cup [groups : {<<>>}, resources : {<<>>}, names : {<<>>}, urls : {<<"/a">>, <<"/b">>, <<"/a", "/b">>},
            verbs : {<<"get">>, <<"list">>}, ns : {""}]
        \cup [groups : {<<>>, <<"core">>}, resources : {<<"r1">>}, names : {<<>>, <<"n">>}, urls : {<<>>}, verbs : {<<"get">>}, ns : {""}]

VARIABLES ms, todo, table, pass
vars == <<ms, todo, table, pass>>
Verbs == {"get", "list", "*"}

KeyOf(r) == CASE pass = 1 -> KeyV(r) [] pass = 2 -> KeyR(r) [] pass = 3 -> KeyG(r) [] pass = 4 -> KeyU(r)
               [] OTHER -> KeyV(r)
Init == /\ \E n \in 0..MaxMarkers : \E f \in [1..n -> Markers] : ms = { f[i] : i \in 1..n }
        /\ pass = 1 /\ table = {}
        /\ todo = UNION { Split(m) : m \in ms }

\* Passes 1..4 fuse rules equal under the pass's key; 12..14 settle rules that became verb twins.
Same(r, s) == IF pass > 10 THEN KeyV(r) = KeyV(s) ELSE KeyOf(r) = KeyOf(s)
Take == /\ todo # {} /\ pass <= 14
        /\ \E r \in todo :
             LET twins == { s \in table : Same(r, s) } IN
             /\ table' = (table \ twins) \cup { Fuse(twins \cup {r}) }
             /\ todo' = todo \ {r}
        /\ UNCHANGED <<ms, pass>>
NextPass == CASE pass = 1 -> 2 [] pass = 2 -> 12 [] pass = 12 -> 3 [] pass = 3 -> 13 [] pass = 13 -> 4 [] pass = 4 -> 14 [] OTHER -> 99
EndPass == /\ todo = {} /\ pass < 99
           /\ pass' = NextPass
           /\ IF NextPass = 99 THEN table' = { Star(r) : r \in table } /\ todo' = {}
              ELSE todo' = table /\ table' = {}
           /\ UNCHANGED ms
Next == Take \/ EndPass
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* Keys compare by contents fixed for the pass, so the bucket of a rule is well defined while it grows:
\* the dimension being merged is not part of the key.
NothingLostOrGained == GrantsAll(todo \cup table, Verbs) = GrantsAll(UNION { Split(m) : m \in ms }, Verbs)
Confluent == pass = 99 => table = NormalForm(UNION { Split(m) : m \in ms })
Canonical == pass = 99 => NoVerbTwins(table) /\ StarAlone(table)
Terminates == <>(pass = 99)
=============================================================================
