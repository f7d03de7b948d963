------------------------------ MODULE Options ------------------------------
(* What a list of options asks for.  An option is [k, name, set, target, rule, *)
(* paths]: k is "gen" (generator name with settings set), "rule" (output rule   *)
(* for generator target, "" being the default), "paths" or "bad".               *)
EXTENDS Naturals, Sequences, FiniteSets
Rng(s) == {s[i] : i \in DOMAIN s}
Pick(opts, K) == SelectSeq(opts, LAMBDA o : o.k = K)
Gens(opts) == Pick(opts, "gen")
Rejected(opts) ==
  \/ \E o \in Rng(opts) : o.k = "bad"
  \/ \E i, j \in 1..Len(Gens(opts)) : i # j /\ Gens(opts)[i].name = Gens(opts)[j].name
  \/ \E r \in Rng(Pick(opts, "rule")) : r.target # "" /\ ~\E g \in Rng(Gens(opts)) : g.name = r.target
(* The rule a generator writes by: the last one given for it, else the last     *)
(* default rule, else its own directory below config.                           *)
For(opts, t) == SelectSeq(Pick(opts, "rule"), LAMBDA r : r.target = t)
Dir(name) == [kind |-> "artifacts", config |-> "config/" \o name, code |-> ""]
RuleOf(opts, name) == LET own == For(opts, name) def == For(opts, "") IN
  IF own # <<>> THEN own[Len(own)].rule ELSE IF def # <<>> THEN def[Len(def)].rule ELSE Dir(name)
Paths(opts) == UNION {Rng(o.paths) : o \in Rng(Pick(opts, "paths"))}
Meaning(opts) == LET g == Gens(opts) IN
  [gens |-> [i \in 1..Len(g) |-> <<g[i].name, g[i].set>>], rules |-> [i \in 1..Len(g) |-> RuleOf(opts, g[i].name)], paths |-> Paths(opts)]
=============================================================================
