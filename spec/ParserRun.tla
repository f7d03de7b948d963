------------------------------ MODULE ParserRun ------------------------------
(* Every way of asking, in small worlds: answers stay, only what is needed is  *)
(* read, schemas do not depend on the order, and a CRD is complete when the    *)
(* packages of its group were asked for before it. A parser that makes CRDs    *)
(* anew each time changes its answers.                                         *)
EXTENDS Parser
CONSTANTS Again
VARIABLES world, st, asked, early
vars == <<world, st, asked, early>>
P(n, g, v, r, ts) == [name |-> n, group |-> g, version |-> v, rank |-> r, types |-> ts]
R(p, t, q, u) == <<Ident(p, t), Ident(q, u)>>
Worlds == {
  [pkgs |-> <<P("a", <<"g">>, "v2", 2, <<"K", "T">>), P("b", <<"g">>, "v1", 1, <<"K">>), P("c", <<>>, "c", 0, <<"T">>)>>,
   refs |-> <<R("a", "K", "a", "T"), R("a", "T", "a", "K"), R("b", "K", "c", "T"), R("a", "T", "b", "K")>>, storage |-> <<Ident("a", "K")>>],
  [pkgs |-> <<P("a", <<"g">>, "v1", 1, <<"K">>), P("b", <<"h">>, "v1", 1, <<"K", "L">>), P("c", <<"g">>, "v3", 3, <<"K", "L">>)>>,
   refs |-> <<R("a", "K", "b", "L"), R("b", "L", "c", "L")>>, storage |-> <<>>] }
Types(w) == UNION {{Ident(p.name, t) : t \in PRng(p.types)} : p \in PRng(w.pkgs)}
Asks(w) == {[op |-> "package", pkg |-> p.name] : p \in PRng(w.pkgs)}
      \cup {[op |-> o, pkg |-> t.pkg, name |-> t.name] : o \in {"schema", "flat"}, t \in Types(w)}
      \cup {[op |-> "crd", group |-> g, name |-> k, described |-> d] : g \in {"g", "h"}, k \in {"K", "L"}, d \in BOOLEAN}
Init == world \in Worlds /\ st = Nothing /\ asked = {} /\ early = {}
Next == \E a \in Asks(world) :
  LET st1 == IF Again /\ a.op = "crd" THEN [st EXCEPT !.crds = {c \in @ : c.group # a.group \/ c.kind # a.name}] ELSE st
      st2 == Ask(world, st1, a)
      new == {c \in st2.crds : ~HasCrd(st, c.group, c.kind)}
  IN /\ st' = st2 /\ UNCHANGED world
     /\ asked' = asked \cup (IF a.op \in {"schema", "flat"} THEN {Ident(a.pkg, a.name)} ELSE {}) \cup (st2.flats \ st.flats)
     \* CRDs asked for before all packages of their group
     /\ early' = early \cup {<<c.group, c.kind>> : c \in {x \in new : \E p \in PRng(world.pkgs) : p.group = <<x.group>> /\ p.name \notin st.loaded}}
Closed == st.schemas = Reach(world, asked) /\ st.flats \subseteq st.schemas /\ st.schemas \subseteq Known(world, st)
CrdOf(g, k) == CHOOSE c \in st.crds : c.group = g /\ c.kind = k
Complete == \A c \in st.crds : <<c.group, c.kind>> \in early \/ PRng(c.versions) = {p.version : p \in {x \in PRng(world.pkgs) : x.group = <<c.group>> /\ c.kind \in PRng(x.types)}}
One == \A c, d \in st.crds : c.group = d.group /\ c.kind = d.kind => c = d
Stays == [][st.loaded \subseteq st'.loaded /\ st.schemas \subseteq st'.schemas /\ st.flats \subseteq st'.flats /\ st.crds \subseteq st'.crds]_vars
Idempotent == \A a \in Asks(world) : LET s == Ask(world, st, a) IN Ask(world, s, a) = s
Spec == Init /\ [][Next]_vars
=============================================================================
