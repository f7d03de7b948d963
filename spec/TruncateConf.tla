---------------------------- MODULE TruncateConf ----------------------------
(* An observation: lim and pairs of schemas <<before, after>> (a description of  *)
(* the latter is a string).                                                    *)
EXTENDS Conf, Truncate
Judge(o) == IF Limited(o.before, o.lim) = o.after THEN {} ELSE {"schema differs"}
Next == ~done /\ done' = TRUE /\ l' = l /\ Report(l, Judge(Trace[l]))
=============================================================================
