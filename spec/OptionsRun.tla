----------------------------- MODULE OptionsRun -----------------------------
(* Reading options one after the other, then giving the rules to their         *)
(* generators in any order (a hash map).                                       *)
EXTENDS Options, TLC
CONSTANT MaxOpts
O(k, n, t, r, p) == [k |-> k, name |-> n, set |-> IF k = "gen" THEN r ELSE "", target |-> t, rule |-> IF k = "rule" THEN [kind |-> "dir", config |-> r, code |-> ""] ELSE [kind |-> "", config |-> "", code |-> ""], paths |-> p]
Opts == {O("gen", "a", "", "s1", <<>>), O("gen", "a", "", "s2", <<>>), O("gen", "b", "", "s1", <<>>), O("gen", "c", "", "", <<>>), O("rule", "", "", "d1", <<>>), O("rule", "", "", "d2", <<>>), O("rule", "", "a", "d3", <<>>),
         O("rule", "", "a", "d4", <<>>), O("rule", "", "b", "d5", <<>>), O("paths", "", "", "", <<"p">>), O("paths", "", "", "", <<"q", "r">>), O("bad", "", "", "", <<>>)}
VARIABLES opts, i, gens, default, byName, byGen, paths, state
vars == <<opts, i, gens, default, byName, byGen, paths, state>>
None == [kind |-> "none yet", config |-> "", code |-> ""]
Init == /\ \E n \in 0..MaxOpts : opts \in [1..n -> Opts]
        /\ i = 1 /\ gens = <<>> /\ default = None /\ byName = {} /\ byGen = {} /\ paths = {} /\ state = "read"
Fail == state' = "failed" /\ UNCHANGED <<gens, default, byName, byGen, paths>>
Read == /\ state = "read" /\ i <= Len(opts) /\ i' = i + 1 /\ UNCHANGED opts
        /\ LET o == opts[i] IN
           CASE o.k = "bad" -> Fail
             [] o.k = "gen" -> IF \E g \in Rng(gens) : g[1] = o.name THEN Fail
                               ELSE gens' = Append(gens, <<o.name, o.set>>) /\ UNCHANGED <<default, byName, byGen, paths, state>>
             [] o.k = "rule" -> /\ IF o.target = "" THEN default' = o.rule /\ byName' = byName
                                   ELSE byName' = {x \in byName : x[1] # o.target} \cup {<<o.target, o.rule>>} /\ default' = default
                                /\ UNCHANGED <<gens, byGen, paths, state>>
             [] o.k = "paths" -> paths' = paths \cup Rng(o.paths) /\ UNCHANGED <<gens, default, byName, byGen, state>>
Associate == /\ state = "read" /\ i > Len(opts) /\ byName # {}
             /\ \E x \in byName : IF \E g \in Rng(gens) : g[1] = x[1]
                  THEN byGen' = byGen \cup {x} /\ byName' = byName \ {x} /\ UNCHANGED <<gens, default, paths, state>>
                  ELSE Fail
             /\ UNCHANGED <<opts, i>>
Finish == /\ state = "read" /\ i > Len(opts) /\ byName = {} /\ state' = "ready"
          /\ UNCHANGED <<opts, i, gens, default, byName, byGen, paths>>
Next == Read \/ Associate \/ Finish
Spec == Init /\ [][Next]_vars
RuleFor(n) == LET own == {x \in byGen : x[1] = n} IN IF own # {} THEN (CHOOSE x \in own : TRUE)[2] ELSE IF default # None THEN default ELSE Dir(n)
RejectedExactly == (state = "failed" => Rejected(opts)) /\ (state = "ready" => ~Rejected(opts))
MeansOneThing == state = "ready" => [gens |-> gens, rules |-> [k \in 1..Len(gens) |-> RuleFor(gens[k][1])], paths |-> paths] = Meaning(opts)
(* Moving an option elsewhere changes nothing but the order of generators, as long as rules for one target keep their order. *)
Swap(s, k) == [s EXCEPT ![k] = s[k + 1], ![k + 1] = s[k]]
OrderDoesNotMatter == i = 1 => \A k \in 1..(Len(opts) - 1) : LET o == Swap(opts, k) IN
  (opts[k].k # "rule" \/ opts[k + 1].k # "rule" \/ opts[k].target # opts[k + 1].target) =>
    /\ Rejected(o) = Rejected(opts)
    /\ ~Rejected(o) => /\ Rng(Meaning(o).gens) = Rng(Meaning(opts).gens) /\ Meaning(o).paths = Meaning(opts).paths
                       /\ \A g \in Rng(Gens(o)) : RuleOf(o, g.name) = RuleOf(opts, g.name)
=============================================================================
