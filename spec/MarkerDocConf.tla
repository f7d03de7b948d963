---------------------------- MODULE MarkerDocConf ----------------------------
EXTENDS Conf, MarkerDoc
Judge(o) == {"documentation differs: " \o d : d \in {Doc(c.block, c.lines) : c \in {x \in Rng(o.docs) : x.doc # Doc(x.block, x.lines)}}}
Next == ~done /\ done' = TRUE /\ l' = l /\ Report(l, Judge(Trace[l]))
=============================================================================
