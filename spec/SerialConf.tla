----------------------------- MODULE SerialConf -----------------------------
(* Documents of the real encoder under the schema the real generator made.   *)
EXTENDS Conf, Serial
Problem(s, d) ==
  LET acc == Accepts(s, d.v) kept == Kept(s, d.v)
  IN CASE d.kind = "emit" /\ ~acc -> "what Go encodes is not accepted"
       [] d.kind \in {"emit", "kept"} /\ acc /\ ~kept -> "what Go encodes is not kept"
       [] d.kind = "lost" /\ kept -> "a property that Go does not know is kept"
       [] d.kind = "wrong" /\ acc -> "a value that Go cannot read is accepted"
       [] acc # d.acc \/ kept # d.kept -> "model"
       [] OTHER -> ""
Judge(r) == LET p == [i \in DOMAIN r.docs |-> Problem(r.s, r.docs[i])]
                b == {i \in DOMAIN p : p[i] # ""}
            IN {<<p[i], ToString(i)>> : i \in {i \in b : \A j \in b : j < i => p[j] # p[i]}}
Next == ~done /\ done' = TRUE /\ l' = l /\ Report(l, Judge(Trace[l]))
=============================================================================
