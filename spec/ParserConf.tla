------------------------------ MODULE ParserConf ------------------------------
(* An observation: world, asks (a CRD being [op, group, name, described]) and   *)
(* after each of them what the parser has: types (known ones, those that can   *)
(* be looked up), gvs, schemas, flats, crds, errs (how many), odd (answers      *)
(* that differ from those of a parser asked for nothing else, or changed).      *)
EXTENDS Conf, Parser
RECURSIVE Fold(_, _, _)
Differences(w, st, st2, o) ==
  (IF PRng(o.types) = Known(w, st2) /\ PRng(o.lookup) = Known(w, st2) THEN {} ELSE {<<"types", "">>})
  \cup (IF PRng(o.gvs) = {<<p.name, p.group[1], p.version>> : p \in {x \in Loaded(w, st2) : x.group # <<>>}} THEN {} ELSE {<<"group versions", "">>})
  \cup (IF PRng(o.schemas) = st2.schemas THEN {} ELSE {<<"schemas", "">>})
  \cup (IF PRng(o.flats) = st2.flats THEN {} ELSE {<<"flattened schemas", "">>})
  \cup (IF PRng(o.crds) = st2.crds THEN {} ELSE {<<"CRDs", "">>})
  \cup (IF o.errs = Errors(st, st2) THEN {} ELSE {<<"errors", "">>})
  \cup {<<"answers differ", x>> : x \in PRng(o.odd)}
Fold(o, n, st) ==
  IF n > Len(o.asks) THEN {}
  ELSE LET st2 == Ask(o.world, st, o.asks[n])
           d == Differences(o.world, st, st2, o.obs[n])
       IN IF d # {} THEN {<<x[1], x[2], ToString(n)>> : x \in d} ELSE Fold(o, n + 1, st2)
Judge(o) == Fold(o, 1, Nothing)
Next == ~done /\ done' = TRUE /\ l' = l /\ Report(l, Judge(Trace[l]))
=============================================================================
