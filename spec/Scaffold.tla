------------------------------ MODULE Scaffold ------------------------------
(* What is scaffolded for a description [kind, resource, namespaced, help,    *)
(* clients] (pkg/typescaffold); pascal and plural are what the rules of       *)
(* English words make of the kind.                                            *)
EXTENDS Lex
Letters == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
Described(d) == /\ d.kind # "" /\ d.pascal = d.kind
                /\ \E i \in 1..Len(Letters) : Char(Letters, i) = Char(d.kind, 1)
Resource(d) == IF d.resource = "" THEN d.plural ELSE d.resource
Root == "+k8s:deepcopy-gen:interfaces=k8s.io/apimachinery/pkg/runtime.Object"
\* The types declared, with their fields (name, type, JSON name) and markers.
Types(d) ==
  { [name |-> d.kind \o "Spec", fields |-> <<>>, markers |-> {}],
    [name |-> d.kind \o "Status", fields |-> <<>>, markers |-> {}],
    [name |-> d.kind,
     fields |-> << <<"", "metav1.TypeMeta", ",inline">>, <<"", "metav1.ObjectMeta", "metadata,omitempty">>,
                   <<"Spec", d.kind \o "Spec", "spec,omitempty">>, <<"Status", d.kind \o "Status", "status,omitempty">> >>,
     markers |-> {Root, "+k8s:openapi-gen=true"} \cup (IF d.clients THEN {"+genclient"} \cup (IF d.namespaced THEN {} ELSE {"+genclient:nonNamespaced"}) ELSE {})],
    [name |-> d.kind \o "List",
     fields |-> << <<"", "metav1.TypeMeta", ",inline">>, <<"", "metav1.ListMeta", "metadata,omitempty">>, <<"Items", "[]" \o d.kind, "items">> >>,
     markers |-> {Root} \cup (IF d.clients /\ ~d.namespaced THEN {"+genclient:nonNamespaced"} ELSE {})] }
\* Lines of help are comments of the spec and of the status, in full, in order.
Ends(body, help) == Len(body) >= Len(help) /\ SubSeq(body, Len(body) - Len(help) + 1, Len(body)) = help
RECURSIVE HasFrom(_, _, _)
HasFrom(s, t, i) == i + Len(t) - 1 <= Len(s) /\ (SubSeq(s, i, i + Len(t) - 1) = t \/ HasFrom(s, t, i + 1))
Contains(s, t) == HasFrom(s, t, 1)
=============================================================================
