---------------------------- MODULE MarkerConf ----------------------------
EXTENDS Conf, MarkerParse
(* An observation: defs, text, want (the values written, when known), and what *)
(* the code made of it: def (name of the definition found), ok, vals.          *)
Judge(o) ==
  LET n == Lookup(o.defs, o.text)
      r == ParseMarker(o.defs[n], o.text)
  IN IF n = 0 THEN (IF o.def = "" THEN {} ELSE {"an unregistered marker was taken for another"})
     ELSE IF o.def # o.defs[n].name THEN {"the marker was given to the wrong definition"}
     ELSE (IF o.want # <<>> /\ (r.e # 0 \/ r.vals # o.want) THEN {"SPECIFICATION"} ELSE {}) \cup
          (IF r.e = 2 THEN {"UNSPECIFIED"} ELSE {}) \cup
          (IF IOEnv.PROP = "M01" THEN
             IF r.e = 0 THEN (IF ~o.ok THEN {"a well formed marker is refused"} ELSE IF o.vals # r.vals THEN {"the values differ from those written"} ELSE {}) ELSE {}
           ELSE IF r.e = 1 /\ o.ok THEN {"a malformed marker is accepted"} ELSE {})
Next == ~done /\ done' = TRUE /\ l' = l /\ Report(l, Judge(Trace[l]))
=============================================================================
