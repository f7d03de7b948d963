------------------------------ MODULE YamlConf ------------------------------
(* An observation: one edit with the trees before and after it (of the root   *)
(* document's content), as in memory and as written and read again; or the    *)
(* conversion of a value.                                                     *)
EXTENDS Conf, YamlTree
Root(t) == IF t.k = "doc" /\ Len(t.e) > 0 THEN t.e[1] ELSE t
Outer(t) == IF t.k = "doc" THEN <<t.c, Len(t.e)>> ELSE <<>>
Edit(o) ==
  LET b == Root(o.before) a == Root(o.after) w == Root(o.reread)
      r == CASE o.op = "get" -> Get(b, o.path) [] o.op = "set" -> Set(b, o.path, o.val) [] OTHER -> Del(b, o.path)
      want == IF o.op = "get" \/ r.err THEN b ELSE r.t IN
  IF o.panic # "" THEN {"panic"}
  ELSE (IF r.err # (o.err # "") THEN {"error"} ELSE {})
       \cup (IF o.op = "get" /\ r.found # o.found THEN {"found"} ELSE {})
       \cup (IF o.op = "get" /\ r.found /\ o.found /\ ~Same(r.t, o.got, TRUE) THEN {"value read"} ELSE {})
       \cup (IF Same(want, a, TRUE) THEN {} ELSE {"tree"})
       \cup (IF ~o.written \/ Same(want, w, FALSE) THEN {} ELSE {"tree when written"})
       \cup (IF Outer(o.before) = Outer(o.after) THEN {} ELSE {"document"})
Conv(o) == (IF o.err = "" /\ o.back = o.json THEN {} ELSE {"conversion"}) \cup (IF o.again = o.json /\ o.plain THEN {} ELSE {"conversion when written"})
Judge(o) == IF o.what = "edit" THEN Edit(o) ELSE Conv(o)
Next == ~done /\ done' = TRUE /\ l' = l /\ Report(l, Judge(Trace[l]))
=============================================================================
