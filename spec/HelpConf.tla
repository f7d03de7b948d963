------------------------------ MODULE HelpConf ------------------------------
(* An observation of help: defs, ok (which could be made), ops (the order in   *)
(* which they were registered, by number), helps (per definition, absent or    *)
(* one), option (grouped like options), the listing docs, same (every time),   *)
(* found (by target and name), probes (definition, arguments given) with       *)
(* accept, own (help of the marker's type, when the listing must say that),    *)
(* summary, the lines of the short listing, when there is one, long, the words *)
(* of its detailed ones, when there are some, words (of each text), and print: *)
(* of every group, the words of what is printed.                               *)
EXTENDS Conf, Help
Doc2(d) == [name |-> d.name, target |-> d.target, summary |-> d.summary, details |-> d.details, category |-> d.category, deprecated |-> d.deprecated, fields |-> Rng(d.fields)]
Judge(o) ==
  LET reg == Registered(o.ops, o.defs)
      want == {Doc(o.defs[i], o.helps[i]) : i \in reg}
      all == Concat([g \in 1..Len(o.docs) |-> o.docs[g].markers])
      Group(i) == IF o.option THEN OptionGroup(o.defs[i]) ELSE Doc(o.defs[i], o.helps[i]).category
  IN (IF o.same THEN {} ELSE {<<"differs from run to run", "">>})
     \cup {<<"can be defined or not", d>> : d \in {ToString(i) : i \in {j \in 1..Len(o.defs) : o.ok[j] # Makeable(o.defs[j])}}}
     \cup {<<"not documented so", ToString(d)>> : d \in want \ {Doc2(x) : x \in Rng(all)}}
     \cup {<<"documented besides", ToString(d)>> : d \in {Doc2(x) : x \in Rng(all)} \ want}
     \cup (IF Len(all) = Cardinality(reg) THEN {} ELSE {<<"number of markers", ToString(Len(all))>>})
     \cup {<<"argument twice", x.name>> : x \in {y \in Rng(all) : Len(y.fields) # Cardinality(Rng(y.fields))}}
     \cup {<<"in the wrong group", o.defs[i].name>> : i \in {j \in reg : ~\E g \in Rng(o.docs) : g.category = Group(j) /\ \E m \in Rng(g.markers) : m.name = o.defs[j].name /\ m.target = o.defs[j].target}}
     \cup {<<"group twice", ToString(g)>> : g \in {h \in 1..Len(o.docs) : \E k \in 1..Len(o.docs) : k # h /\ o.docs[k].category = o.docs[h].category}}
     \cup (IF o.option THEN {} ELSE {<<"not in order", ToString(g)>> : g \in {h \in 1..Len(o.docs) : LET m == o.docs[h].markers IN \E i \in 2..Len(m) : LexLess(m[i].name, m[i - 1].name)}})
     \cup {<<"found", ToString(f)>> : f \in {x \in Rng(o.found) : x[3] # IF <<x[1], x[2]>> \in Slots(o.ops, o.defs) THEN Holder(o.ops, o.defs, <<x[1], x[2]>>) ELSE 0}}
     \cup {<<"accepts or not", ToString(o.probes[i])>> : i \in {j \in 1..Len(o.probes) : o.accept[j] # Accepted(o.defs[o.probes[j].def], o.probes[j].given)}}
     \cup {<<"help of another marker", o.defs[i].name>> : i \in {j \in reg : o.own[j] # <<>> /\ ~\E m \in Rng(all) : m.name = o.defs[j].name /\ m.target = o.defs[j].target /\ m.summary \in Rng(o.own[j])}}
     \cup (IF o.summary = <<>> THEN {} ELSE
           LET shown == Concat([g \in 1..Len(o.docs) |-> IF o.docs[g].category = "" THEN <<>> ELSE o.docs[g].markers])
           IN IF o.summary[1] = [i \in 1..Len(shown) |-> <<Short(shown[i]), shown[i].target>>] THEN {} ELSE {<<"summary", ToString({x \in Rng([i \in 1..Len(shown) |-> <<Short(shown[i]), shown[i].target>>]) : x \notin Rng(o.summary[1])})>>})
     \cup UNION { LET ms == o.docs[g].markers  p == o.print[g]  W(t) == o.words["k" \o t] IN
           (IF p.rows = [i \in 1..Len(ms) |-> Row(ms[i], W)] THEN {} ELSE {<<"rows of the summary", ToString(o.docs[g].category)>>})
           \cup (IF p.summary = W(o.docs[g].category) \o Concat(p.rows) THEN {} ELSE {<<"summary besides its rows", o.docs[g].category>>})
           \cup (IF Len(p.at) <= 1 THEN {} ELSE {<<"columns of the summary", o.docs[g].category>>})
           \cup (IF p.full = W(o.docs[g].category) \o Concat([i \in 1..Len(ms) |-> Detailed(ms[i], TRUE, W)]) THEN {} ELSE {<<"all details", o.docs[g].category>>})
           \cup (IF p.brief = W(o.docs[g].category) \o Concat([i \in 1..Len(ms) |-> Detailed(ms[i], FALSE, W)]) THEN {} ELSE {<<"details", o.docs[g].category>>})
         : g \in 1..Len(o.print) }
     \* in detail, the command shows the groups that have a name
     \cup (IF o.long = <<>> THEN {} ELSE
           LET W(t) == o.words["k" \o t]
               gs == SelectSeq(o.docs, LAMBDA g : g.category # "")
               Of(full) == Concat([g \in 1..Len(gs) |-> W(gs[g].category) \o Concat([i \in 1..Len(gs[g].markers) |-> Detailed(gs[g].markers[i], full, W)])])
               Ends(s, t) == Len(s) >= Len(t) /\ SubSeq(s, Len(s) - Len(t) + 1, Len(s)) = t
               \* the help about options comes with its usage before
               Is(s, t) == IF o.option THEN Ends(s, t) ELSE s = t
           IN {<<"long help of the command", ToString(k)>> : k \in {n \in 1..2 : ~Is(o.long[n], Of(n = 1))}})
Next == ~done /\ done' = TRUE /\ l' = l /\ Report(l, Judge(Trace[l]))
=============================================================================
