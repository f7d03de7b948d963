---------------------------- MODULE FlattenConf ----------------------------
(* An observation: types: <<<<name, schema>>..>>, runs: several histories of  *)
(* asking (each on its own parser): <<[type, flat, failed, panic, kept]..>>.  *)
EXTENDS Conf, Schema
Judge(o) ==
  LET names == {x[1] : x \in Rng(o.types)}
      T(n) == LET h == SelectSeq(o.types, LAMBDA x : x[1] = n) IN IF h = <<>> THEN Empty ELSE h[1][2]
      asks == UNION {Rng(r) : r \in Rng(o.runs)}
      asked == {a.type : a \in asks}
      want == [n \in asked |-> Expand(T, T(n), {n})]
      clash == [n \in asked |-> Clash(Parts(want[n]))]
      fine == {n \in asked : ~clash[n]}
      C01 == {<<"constraints differ", n>> : n \in {n \in fine : \E a \in asks : a.type = n /\ Den(a.flat) # Den(want[n])}}
             \cup {<<"description differs", n>> : n \in {n \in fine : \E a \in asks : a.type = n /\ ~(Docs(want[n], <<>>) \subseteq Docs(a.flat, <<>>))}}
             \cup {<<"clash not reported", n>> : n \in {n \in asked : clash[n] /\ \E r \in Rng(o.runs) :    \* reported when it is made, not again when it is asked for again
                    \E i \in DOMAIN r : r[i].type = n /\ ~r[i].failed /\ \A j \in 1..i-1 : r[j].type # n}}
             \cup {<<"error without a reason", n>> : n \in {n \in fine : \E a \in asks : a.type = n /\ a.failed}}
      C02 == {<<"reference left", n>> : n \in {n \in asked : \E a \in asks : a.type = n /\ HasRef(a.flat)}}
             \cup {<<"conjunction left", n>> : n \in {n \in fine : \E a \in asks : a.type = n /\ Leftover(a.flat)}}
             \cup {<<"depends on the history", n>> : n \in {n \in fine : Cardinality({a.flat : a \in {a \in asks : a.type = n}}) > 1}}
             \cup {<<"something handed out changed", a.type>> : a \in {a \in asks : a.kept # ""}}
             \cup {<<"crash", a.type>> : a \in {a \in asks : a.panic # ""}}
  IN IF IOEnv.PROP = "C01" THEN C01 ELSE C02
Next == ~done /\ done' = TRUE /\ l' = l /\ Report(l, Judge(Trace[l]))
=============================================================================
