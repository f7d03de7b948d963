---------------------------- MODULE GoSchemaConf ----------------------------
(* An observation: a declaration with options (ignore, optional, floats), the *)
(* schema the real code gave it (got), how many errors it reported, panic.   *)
EXTENDS Conf, GoSchema
RECURSIVE Read(_)
Read(s) == [c |-> Rng(s.c), req |-> Rng(s.req), rules |-> s.rules, keys |-> s.keys, subs |-> {<<x[1], Read(x[2])>> : x \in Rng(s.subs)},
            all |-> [i \in DOMAIN s.all |-> Read(s.all[i])], ref |-> s.ref, desc |-> s.desc]
Judge(o) ==
  LET w == Want(o.d, o.ignore, o.optional, o.floats)
      want == Norm(w.s, o.floats)
      got0 == Norm(Read(o.got), o.floats)
      got == IF w.opaque THEN [got0 EXCEPT !.desc = o.d.doc] ELSE got0
      subs(s) == {x[1] : x \in s.subs}
  IN (IF o.panic # "" THEN {<<"crash">>} ELSE {})
     \cup (IF w.bad > 0 /\ o.errs = 0 /\ o.panic = "" THEN {<<"accepted">>} ELSE {})
     \cup (IF w.bad = 0 /\ o.errs < w.misfits THEN {<<"misfits not reported", w.misfits, o.errs>>} ELSE {})
     \cup (IF w.bad = 0 /\ w.misfits = 0 /\ o.errs > 0 THEN {<<"refused">>} ELSE {})
     \cup (IF w.bad = 0 /\ got # want THEN {<<"schema differs", IF subs(got) # subs(want) THEN <<"fields", subs(want), subs(got)>> ELSE <<>>,
                IF got.req # want.req THEN <<"required", want.req, got.req>> ELSE <<>>, {x \in want.subs : x \notin got.subs}, {x \in got.subs : x \notin want.subs},
                IF [got EXCEPT !.subs = {}, !.req = {}] # [want EXCEPT !.subs = {}, !.req = {}] THEN <<[want EXCEPT !.subs = {}], [got EXCEPT !.subs = {}]>> ELSE <<>> >>} ELSE {})
Next == ~done /\ done' = TRUE /\ l' = l /\ Report(l, Judge(Trace[l]))
=============================================================================
