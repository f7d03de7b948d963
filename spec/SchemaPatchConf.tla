-------------------------- MODULE SchemaPatchConf --------------------------
(* An observation: manifests, the schemas of the Go types, and the manifests  *)
(* afterwards with the files that were written; and the texts of a run over   *)
(* the result.                                                                *)
EXTENDS Conf, SchemaPatch
Judge(o) ==
  IF o.panic # "" THEN {<<"panic">>}
  ELSE IF Fails(o.ms, o.go) THEN (IF o.failed THEN {} ELSE {<<"not reported">>})
  ELSE IF o.failed THEN {<<"refused">>}
  ELSE LET want == Patch(o.ms, o.go) w == {o.written[i] + 1 : i \in 1..Len(o.written)} IN
       (IF w = Written(o.ms) THEN {} ELSE {<<"files written", w>>})
       \cup UNION { IF want[i].docs = o.after[i].docs THEN {}
                    ELSE IF Len(want[i].docs) # Len(o.after[i].docs) THEN {<<"documents", i>>}
                    ELSE {<<"document", i, j>> : j \in {k \in 1..Len(want[i].docs) : want[i].docs[k] # o.after[i].docs[k]}} : i \in 1..Len(want) }
       \cup (IF o.stable THEN {} ELSE {<<"another run changes something">>})
Next == ~done /\ done' = TRUE /\ l' = l /\ Report(l, Judge(Trace[l]))
=============================================================================
