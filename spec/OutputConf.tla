----------------------------- MODULE OutputConf -----------------------------
(* An observation of a run of the command: the options (as in Options), the   *)
(* artifacts of the generators when nothing is wrong (gen, name, pkg, content *)
(* id, src: the packages they are made from), what is wrong (broken: pairs of *)
(* a generator and a package, "*" being all; blocked: places that cannot be   *)
(* written; loads: packages that have errors whatever is generated; unloadable: a path that cannot be looked up), the      *)
(* files before and after as pairs of place and content id, what was printed  *)
(* as content ids, whether a reason was given, and the exit status.           *)
EXTENDS Conf, Output
Files(fs) == {<<fs[i][1], fs[i][2]>> : i \in 1..Len(fs)}
Names(fs) == {fs[i][1] : i \in 1..Len(fs)}
Broken(o, g, p) == \E b \in Rng(o.broken) : b[1] \in {g, "*"} /\ b[2] \in {p, "*"}
SameBag(s, t) == Len(s) = Len(t) /\ \A x \in Rng(s) : Cardinality({i \in 1..Len(s) : s[i] = x}) = Cardinality({i \in 1..Len(t) : t[i] = x})
Judge(o) ==
  LET gens == {g.name : g \in Rng(Gens(o.opts))}
      refused == Rejected(o.opts) \/ o.unloadable
      A == IF refused THEN {} ELSE {i \in 1..Len(o.arts) : o.arts[i].gen \in gens}
      place == [i \in A |-> Place(RuleOf(o.opts, o.arts[i].gen), o.arts[i])]
      blocked(i) == place[i] \in Rng(o.blocked)
      (* a generator that cannot write one artifact may give up on its others *)
      fails(g) == (\E i \in A : o.arts[i].gen = g /\ blocked(i)) \/ \E b \in Rng(o.broken) : b[1] \in {g, "*"} /\ b[2] = "*"
      must(i) == ~fails(o.arts[i].gen) /\ \A p \in Rng(o.arts[i].src) : ~Broken(o, o.arts[i].gen, p)
      fault == refused \/ gens = {} \/ o.loads # <<>> \/ (\E b \in Rng(o.broken) : b[1] \in gens \cup {"*"}) \/ (\E i \in A : blocked(i))
      places == {place[i] : i \in A} \ {Stdout, Nothing}
      before == Files(o.before) after == Files(o.after)
      pr == SelectSeq([i \in 1..Len(o.arts) |-> i], LAMBDA i : i \in A /\ place[i] = Stdout)
      prgens == {o.arts[i].gen : i \in Rng(pr)}
      got(g) == SelectSeq(o.printed, LAMBDA x : \E i \in Rng(pr) : o.arts[i].gen = g /\ o.arts[i].id = x)
      want(g) == LET s == SelectSeq(pr, LAMBDA i : o.arts[i].gen = g) IN [k \in 1..Len(s) |-> o.arts[s[k]].id] IN
  (IF fault = (o.exit # 0) THEN {} ELSE {<<"exit status", o.exit>>})
  \cup (IF o.crash THEN {<<"crashed", o.exit>>} ELSE {})
  \cup (IF fault /\ ~o.said THEN {<<"nothing said", o.exit>>} ELSE {})
  \cup (IF o.bare > 0 THEN {<<"errors without a text", o.bare>>} ELSE {})
  (* the packages with errors are named; a generator that fails altogether need not look at them, *)
  (* but those which cannot be loaded are known anyway                                            *)
  \cup (IF refused THEN {}
         ELSE { <<"not named", b[2]>> : b \in {x \in Rng(o.broken) : (x[2] \in Rng(o.loads) \/ ~\E g \in gens : fails(g)) /\ x[1] \in gens \cup {"*"} /\ x[2] # "*" /\ gens # {} /\ x[2] \notin Rng(o.named) /\ ~("dep" \in Rng(o.loads) /\ "dep" \in Rng(o.named))} })
  (* complete: a place that is meant for whole artifacts only has the content of one of them *)
  \cup { <<"not as generated", p>> : p \in {q \in places : (\A i \in A : place[i] = q => must(i)) /\ ~\E i \in A : place[i] = q /\ <<q, o.arts[i].id>> \in after} }
  (* nothing else is written, changed or removed *)
  \cup { <<"written besides", f[1]>> : f \in {x \in after : x[1] \notin places /\ x \notin before} }
  \cup { <<"gone", p>> : p \in Names(o.before) \ Names(o.after) }
  (* standard output has the artifacts meant for it and nothing else, one generator after the other *)
  \cup (IF Stdout \in Rng(o.blocked) THEN {}
        ELSE { <<"not printed", g>> : g \in {h \in prgens : (\A i \in Rng(pr) : o.arts[i].gen = h => must(i)) /\ ~SameBag(got(h), want(h))} }
             \cup (IF o.refusedtext \/ (\E i \in Rng(pr) : ~must(i)) \/ (\A k \in 1..Len(o.printed) : \E i \in Rng(pr) : o.arts[i].id = o.printed[k]) THEN {} ELSE {<<"printed besides", "">>}))
Next == ~done /\ done' = TRUE /\ l' = l /\ Report(l, Judge(Trace[l]))
=============================================================================
