------------------------- MODULE MarkerCollectConf -------------------------
EXTENDS Conf, MarkerCollect
(* o: defs, files (in order), reps: observed [nodes, bad (positions of errors), failed]. *)
ByDef(vals, d) == LET s == SelectSeq(vals, LAMBDA v : v.def = d) IN [n \in 1..Len(s) |-> s[n].vals]
Same(defs, want, got) ==
  /\ Len(want) = Len(got)
  /\ \A n \in 1..Len(want) :
       /\ got[n].name = want[n].name
       /\ LET w == Values(For(defs, want[n].target), want[n].ms) IN
          /\ Len(w) = Len(got[n].vals)
          /\ \A d \in {w[k].def : k \in 1..Len(w)} : ByDef(w, d) = ByDef(got[n].vals, d)
JudgeRep(o, want, r) ==
  LET bad == Bad(o.defs, want)
      \* malformed markers in other places (interfaces, inline structs, bodies) may be reported as well
      may == bad \cup UNION {UNION {BadOf(For(o.defs, t), f.all) : t \in 0..2} : f \in Rng(o.files)}
  IN
  IF IOEnv.PROP = "M02" THEN
    (IF bad \subseteq Rng(r.bad) /\ Rng(r.bad) \subseteq may THEN {} ELSE IF bad \subseteq Rng(r.bad) THEN {"an error for a marker that is not malformed"} ELSE {"a malformed marker is not reported at its position"})
    \cup (IF r.failed = (r.bad # <<>>) THEN {} ELSE {"the outcome hides or invents malformed markers"})
  ELSE IF bad # {} THEN {} ELSE IF r.failed \/ ~Same(o.defs, want, r.nodes) THEN {"markers attached differently"} ELSE {}
Judge(o) == LET want == NodesOf(Files(o.defs, o.files)) IN
  (UNION {JudgeRep(o, want, r) : r \in Rng(o.reps)}) \cup (IF Len(o.reps) = 1 THEN {} ELSE {"results differ between runs"})
Next == ~done /\ done' = TRUE /\ l' = l /\ Report(l, Judge(Trace[l]))
=============================================================================
