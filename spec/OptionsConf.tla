----------------------------- MODULE OptionsConf -----------------------------
(* An observation: opts, and got [rejected, listed (whether listing the markers *)
(* of the options is rejected), panic, gens, rules, paths].                     *)
EXTENDS Conf, Options
Judge(o) ==
  LET g == o.got bad == Rejected(o.opts) IN
  (IF g.panic = "" THEN {} ELSE {"crash"}) \cup
  (IF g.rejected = (bad \/ o.missing) THEN {} ELSE {"acceptance differs"}) \cup (IF g.listed = bad THEN {} ELSE {"acceptance for help differs"}) \cup
  (IF bad \/ o.missing \/ g.rejected THEN {} ELSE
     LET m == Meaning(o.opts) IN
     (IF g.gens = m.gens THEN {} ELSE {"generators differ"}) \cup (IF g.rules = m.rules THEN {} ELSE {"rules differ"})
     \cup (IF Rng(g.paths) = (IF m.paths = {} THEN {""} ELSE m.paths) /\ Len(g.paths) = Cardinality(Rng(g.paths)) THEN {} ELSE {"paths differ"}))
Next == ~done /\ done' = TRUE /\ l' = l /\ Report(l, Judge(Trace[l]))
=============================================================================
