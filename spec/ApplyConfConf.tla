---------------------------- MODULE ApplyConfConf ----------------------------
(* An observation: packages as in ApplyConf, whether their markers are all    *)
(* well-formed (bad), what was found in their output directories (types,      *)
(* objects: pairs of name and number of the constructor's arguments, kinds:   *)
(* those found by kind, apis: pairs of object and API version, compiles,      *)
(* header, support: whether the shared files are there, more: other files),   *)
(* the API version they have (api) and the one their directory suggests       *)
(* (dirapi, with docgo telling whether the group is given in doc.go); files   *)
(* written elsewhere, whether a second run wrote the same, the exit status    *)
(* and whether anything is wrong with the run as a whole (broken).            *)
EXTENDS Conf, ApplyConf
Args(t) == IF t.nonns THEN 1 ELSE 2
Of(o, p) ==
  LET G == IF p.bad \/ o.broken THEN {} ELSE Generated(p)
      asked == {t \in Elems(p.types) : Asked(p, t)}
      g == p.got IN
  { <<"missing", p.dir, n>> : n \in G \ Elems(g.types) }
  \cup { <<"not asked for", p.dir, n>> : n \in Elems(g.types) \ G }
  \cup { <<"unexpected file", p.dir, n>> : n \in Elems(g.more) }
  \cup { <<"not found by kind", p.dir, n>> : n \in G \ Elems(g.kinds) } \cup { <<"found by kind", p.dir, n>> : n \in Elems(g.kinds) \ G }
  \cup (IF G # {} /\ ~g.support THEN {<<"shared files missing", p.dir, "">>} ELSE {})
  \cup (IF g.support /\ (p.bad \/ o.broken \/ ~Involved(p)) THEN {<<"package not enabled", p.dir, "">>} ELSE {})
  \cup (IF G # {} /\ ~g.compiles THEN {<<"does not compile", p.dir, "">>} ELSE {})
  \cup (IF g.types # <<>> /\ ~g.header THEN {<<"header missing", p.dir, "">>} ELSE {})
  \cup { <<"constructor", p.dir, t.name>> : t \in {u \in asked : u.name \in G /\ <<u.name, Args(u)>> \notin Elems(g.objects)} }
  \cup { <<"constructor of an object", p.dir, x[1]>> : x \in {y \in Elems(g.objects) : y[1] \notin {t.name : t \in asked}} }
  \cup { <<IF x[2] = p.dirapi /\ ~p.docgo THEN "api version by directory" ELSE "api version", p.dir, x[1]>> : x \in {y \in Elems(g.apis) : y[2] # p.api} }
Judge(o) ==
  UNION {Of(o, o.pkgs[i]) : i \in 1..Len(o.pkgs)}
  \cup { <<"written elsewhere", o.elsewhere[i], "">> : i \in 1..Len(o.elsewhere) }
  \cup (IF o.same THEN {} ELSE {<<"second run differs", "", "">>})
  \cup (IF (o.exit = 0) = (o.broken \/ \E i \in 1..Len(o.pkgs) : o.pkgs[i].bad) THEN {<<"exit status", "", ToString(o.exit)>>} ELSE {})
Next == ~done /\ done' = TRUE /\ l' = l /\ Report(l, Judge(Trace[l]))
=============================================================================
