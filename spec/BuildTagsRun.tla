---------------------------- MODULE BuildTagsRun ----------------------------
(* Loading the packages of several modules: each module is a load of its own  *)
(* with a copy of the configuration, in any order.  What was read in the end  *)
(* is what the tags select in every module.  Variants: the configuration of    *)
(* nested modules without tags, tags of one load added to the next's, tests    *)
(* read.                                                                       *)
EXTENDS BuildTags
CONSTANTS Variant
VARIABLES given, mods, todo, cfg, got
vars == <<given, mods, todo, cfg, got>>
T(t) == [op |-> "tag", tag |-> t, args |-> <<>>]
Not(e) == [op |-> "not", tag |-> "", args |-> <<e>>]
F(n, test, when) == [name |-> n, test |-> test, suffix |-> <<>>, when |-> when]
Kinds == {F("plain", FALSE, <<>>), F("a", FALSE, <<T("a")>>), F("nota", FALSE, <<Not(T("a"))>>), F("auto", FALSE, <<Not(T("ignore_autogenerated"))>>), F("test", TRUE, <<>>)}
Init == /\ given \in {<<>>, <<<<>>>>, <<<<"a">>>>, <<<<"a", "ignore_autogenerated">>>>}
        /\ mods \in [1..3 -> {[files |-> s] : s \in {<<x, y>> : x \in Kinds, y \in Kinds}}]
        /\ todo = {1, 2, 3} /\ cfg = Tags(given, <<"linux">>) /\ got = [m \in 1..3 |-> {}]
Load(m) == /\ m \in todo /\ todo' = todo \ {m}
           /\ LET tags == IF Variant = "nested" /\ m # 1 THEN {"linux"} ELSE cfg IN
              got' = [got EXCEPT ![m] = IF Variant = "tests" THEN Files([files |-> [i \in 1..2 |-> [mods[m].files[i] EXCEPT !.test = FALSE]]], tags) ELSE Files(mods[m], tags)]
           /\ cfg' = (IF Variant = "kept" /\ F("a", FALSE, <<T("a")>>) \in Rng(mods[m].files) THEN cfg \cup {"a"} ELSE cfg) /\ UNCHANGED <<given, mods>>
Next == \E m \in todo : Load(m)
Right == \A m \in 1..3 : m \notin todo => got[m] = Files(mods[m], Tags(given, <<"linux">>))
=============================================================================
