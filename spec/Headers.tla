------------------------------ MODULE Headers ------------------------------
(* What a generated file consists of: the header asked for, with the year    *)
(* filled in, then what is generated.  A header is given as the texts        *)
(* between its occurrences of " YEAR".                                       *)
EXTENDS Lex
Fill(pieces, year) == Join(pieces, " " \o year)
\* manifests: the header, then the documents, each introduced by a line ---
Manifest(head, docs) == head \o Join([i \in 1..Len(docs) |-> "---\n" \o docs[i]], "")
\* code: the header between the build constraint and the rest (comments without blank lines at their ends)
Code2(pre, head, rest) == pre \o (IF head = "" THEN "" ELSE head \o "\n\n") \o rest
\* keys a generator's documents have
Keys(gen) == {"apiVersion", "kind"} \cup (CASE gen = "rbac" -> {"metadata", "rules"} [] gen = "webhook" -> {"metadata", "webhooks"} [] OTHER -> {"metadata", "spec"})
MetaKeys == {"name", "namespace", "labels", "annotations"}
=============================================================================
