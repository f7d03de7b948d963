---------------------------- MODULE FlattenMerge ----------------------------
(* Merging the parts of a conjunction into one schema, part after part, and  *)
(* keyword after keyword: what cannot be said twice in one schema is put     *)
(* back into a (small) conjunction. Checked for every pair of small parts:   *)
(* the merged schema says exactly what the parts say together.               *)
EXTENDS Schema
VARIABLES orig, cur, errs, stage
vars == <<orig, cur, errs, stage>>

Put(pairs, n, v) == Append(SelectSeq(pairs, LAMBDA x : x[1] # n), <<n, v>>)
Drop(pairs, n) == SelectSeq(pairs, LAMBDA x : x[1] # n)
Val(pairs, n) == LET h == SelectSeq(pairs, LAMBDA x : x[1] = n) IN IF h = <<>> THEN "" ELSE h[1][2]
SubOf(s, lb) == SelectSeq(s.subs, LAMBDA x : x[1] = lb)[1][2]
HasSub(s, lb) == \E x \in Rng(s.subs) : x[1] = lb

\* d: [s: the schema so far, rem: what the destination and the source put back, err]
RECURSIVE Into(_, _), IntoAll(_, _, _), Simple(_, _, _), Subs(_, _, _)
Simple(d, src, i) ==
  IF i > Len(src.c) THEN d
  ELSE LET n == src.c[i][1] v == src.c[i][2] old == Val(d.s.c, n) IN
    Simple(IF old = "" THEN [d EXCEPT !.s.c = Put(@, n, v)]
           ELSE IF old = v THEN d
           ELSE IF n = "type" THEN [d EXCEPT !.err = TRUE]
           ELSE IF n = "x-kubernetes-map-type" THEN [d EXCEPT !.s.c = Put(@, n, v)]
           ELSE [d EXCEPT !.s.c = Drop(@, n), !.remD.c = Put(@, n, old), !.remS.c = Put(@, n, v)], src, i + 1)
Subs(d, src, i) ==
  IF i > Len(src.subs) THEN d
  ELSE LET lb == src.subs[i][1] v == src.subs[i][2] IN
    Subs(IF ~HasSub(d.s, lb) THEN [d EXCEPT !.s.subs = Append(@, <<lb, v>>)]
         ELSE IF lb = "i" THEN [d EXCEPT !.s.subs = Drop(@, lb), !.remD.subs = Put(@, lb, SubOf(d.s, lb)), !.remS.subs = Put(@, lb, v)]
         ELSE LET m == Into([s |-> SubOf(d.s, lb), err |-> d.err], v) IN
              [d EXCEPT !.s.subs = [n \in 1..Len(@) |-> IF @[n][1] = lb THEN <<lb, m.s>> ELSE @[n]], !.err = m.err], src, i + 1)
IntoAll(d, parts, i) == IF i > Len(parts) THEN d ELSE IntoAll(Into(d, parts[i]), parts, i + 1)
\* merges src, its own parts first, into d = [s, err]
Into(d0, src) ==
  LET d1 == IntoAll(d0, src.all, 1)
      d2 == Subs(Simple([s |-> d1.s, err |-> d1.err, remD |-> Empty, remS |-> Empty], src, 1), src, 1)
      s3 == [d2.s EXCEPT !.req = @ \o SelectSeq(src.req, LAMBDA r : r \notin Rng(@)), !.rules = src.rules \o @, !.br = @ \o src.br]
  IN [s |-> IF d2.remS = Empty THEN s3 ELSE [s3 EXCEPT !.all = @ \o <<d2.remD, d2.remS>>], err |-> d2.err]
\* one schema merged, then the schemas below it
RECURSIVE Flat(_)
Flat(d) ==
  LET m == IntoAll([s |-> [d.s EXCEPT !.all = <<>>], err |-> d.err], d.s.all, 1)
      subs == [i \in 1..Len(m.s.subs) |-> Flat([s |-> m.s.subs[i][2], err |-> FALSE])]
      alls == [i \in 1..Len(m.s.all) |-> Flat([s |-> m.s.all[i], err |-> FALSE])]
  IN [s |-> [m.s EXCEPT !.subs = [i \in 1..Len(@) |-> <<@[i][1], subs[i].s>>], !.all = [i \in 1..Len(@) |-> alls[i].s]],
      err |-> m.err \/ (\E i \in DOMAIN subs : subs[i].err) \/ (\E i \in DOMAIN alls : alls[i].err)]

Opt(n, vs) == {<<>>} \cup {<<<<n, v>>>> : v \in vs}
Leafs == {[Empty EXCEPT !.c = a \o b, !.rules = r] : a \in Opt("type", {"int", "str"}), b \in Opt("max", {"5", "5x"}), r \in {<<>>, <<"q">>}}
Small == {x \in Leafs : x.rules = <<>>}
Nested == {[Empty EXCEPT !.subs = <<<<lb, x>>>>, !.req = q] : lb \in {"p:f", "i", "a"}, x \in Small, q \in {<<>>, <<"f">>}}
          \cup {[Empty EXCEPT !.subs = <<<<"p:f", [Empty EXCEPT !.all = <<x, y>>]>>>>] : x \in Small, y \in {z \in Small : Len(z.c) = 1}}
Deep == {[Empty EXCEPT !.all = <<x, y>>] : x \in Small, y \in {z \in Small : Len(z.c) = 1}}
PartSet == Leafs \cup Nested \cup Deep
CONSTANT Wide
Init == /\ orig = [Empty EXCEPT !.c = <<<<"start", "">>>>] /\ cur = <<>> /\ errs = FALSE /\ stage = "start"
Choose == /\ stage = "start" /\ stage' = "part"
          /\ \E p \in PartSet : orig' = [Empty EXCEPT !.all = <<p>>]
          /\ UNCHANGED <<cur, errs>>
More == /\ stage = "part" /\ stage' = "chosen"
        /\ \E p \in PartSet, r \in (IF Wide THEN Small ELSE {Empty, [Empty EXCEPT !.c = <<<<"max", "5x">>>>]}) :
               orig' = [r EXCEPT !.all = <<orig.all[1], p>>]
        /\ UNCHANGED <<cur, errs>>
Merge == /\ stage = "chosen" /\ stage' = "done"
         /\ LET m == Flat([s |-> orig, err |-> FALSE]) IN cur' = <<m.s>> /\ errs' = m.err
         /\ UNCHANGED orig
Next == Choose \/ More \/ Merge
Spec == Init /\ [][Next]_vars
SaysTheSame == stage = "done" /\ ~Clash(Parts(orig)) => Den(cur[1]) = Den(orig)
ClashReported == stage = "done" => (errs <=> Clash(Parts(orig)))
Merged == stage = "done" /\ ~errs => ~Leftover(cur[1])
=============================================================================
