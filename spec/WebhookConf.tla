---------------------------- MODULE WebhookConf ----------------------------
EXTENDS Conf, Webhook
(* An observation: pkgs, and reps: the different results of several runs, each *)
(* [failed, docs].                                                             *)
SameBag(a, b) == Len(a) = Len(b) /\ \A x \in Rng(a) \cup Rng(b) :
   Cardinality({i \in 1..Len(a) : a[i] = x}) = Cardinality({i \in 1..Len(b) : b[i] = x})
Unordered(docs, want) ==
  /\ Len(docs) = Len(want)
  /\ \A i \in 1..Len(docs) : /\ docs[i].kind = want[i].kind /\ docs[i].name = want[i].name /\ docs[i].api = want[i].api
                             /\ SameBag(docs[i].webhooks, want[i].webhooks)
Faithful(o, r) == ~Fails(o.pkgs) /\ ~r.failed => Unordered(r.docs, Docs(o.pkgs))
Refused(o, r) == r.failed = Fails(o.pkgs) /\ (r.failed => r.docs = <<>>)
Ordered(o, r) == ~Fails(o.pkgs) /\ ~r.failed => \A i \in 1..Len(r.docs) : i <= Len(Docs(o.pkgs)) =>
                   LET e == r.docs[i].webhooks w == Docs(o.pkgs)[i].webhooks IN
                   SameBag(e, w) => e = w
Judge(o) == LET all(P(_, _)) == \A r \in Rng(o.reps) : P(o, r) IN
  IF IOEnv.PROP = "W01" THEN IF all(Faithful) THEN {} ELSE {"entries differ from the markers"}
  ELSE (IF all(Refused) THEN {} ELSE {"failure differs"}) \cup (IF all(Ordered) THEN {} ELSE {"order"})
       \cup (IF Len(o.reps) = 1 THEN {} ELSE {"results differ between runs"})
Next == ~done /\ done' = TRUE /\ l' = l /\ Report(l, Judge(Trace[l]))
=============================================================================
