------------------------------- MODULE Schema -------------------------------
(* JSON schemas as trees, and what they say.                                 *)
(* A schema: [c: <<<<name, value>>..>> (simple keywords), req: names,        *)
(*   rules: validation rules, subs: <<<<label, schema>>..>> (p:name for a    *)
(*   property, i for items, a for additional properties), br: <<<<kind,      *)
(*   schemas>>..>> (anyOf, oneOf, not), all: schemas (allOf), ref: a type or *)
(*   "", desc: its documentation: description, title, example, links].       *)
EXTENDS Lex
Empty == [c |-> <<>>, req |-> <<>>, rules |-> <<>>, subs |-> <<>>, br |-> <<>>, all |-> <<>>, ref |-> "", desc |-> <<"", "", "", "">>]

RECURSIVE Src(_), SrcAll(_, _)
SrcAll(ss, i) == IF i > Len(ss) THEN <<>> ELSE Src(ss[i]) \o SrcAll(ss, i + 1)
Src(p) == SrcAll(p.all, 1) \o <<p>>
\* The parts whose conjunction a schema is, in the order they count.
Parts(s) == <<s>> \o SrcAll(s.all, 1)

\* The same for several schemas of one place: what the first one embeds counts last.
PartsOf(ss) == IF ss = <<>> THEN <<>> ELSE <<ss[1]>> \o SrcAll(Tail(ss), 1) \o SrcAll(ss[1].all, 1)
RECURSIVE SubsOf(_, _, _)
SubsOf(parts, label, i) ==
  IF i > Len(parts) THEN <<>>
  ELSE LET hit == SelectSeq(parts[i].subs, LAMBDA x : x[1] = label)
       IN (IF hit = <<>> THEN <<>> ELSE <<hit[1][2]>>) \o SubsOf(parts, label, i + 1)
Labels(parts) == UNION {{x[1] : x \in Rng(p.subs)} : p \in Rng(parts)}

Last(parts, name) ==       \* of two map types the later one counts
  LET have == {i \in 1..Len(parts) : \E x \in Rng(parts[i].c) : x[1] = name}
  IN IF have = {} THEN {}
     ELSE LET m == CHOOSE i \in have : \A j \in have : j <= i IN {x \in Rng(parts[m].c) : x[1] = name}

\* Every single constraint of a conjunction, by the place it applies to.
RECURSIVE Atoms(_, _)
Atoms(parts, path) ==
     {<<path, x[1], x[2]>> : x \in {y \in UNION {Rng(p.c) : p \in Rng(parts)} : y[1] # "x-kubernetes-map-type"} \cup Last(parts, "x-kubernetes-map-type")}
  \cup {<<path, "required", r>> : r \in UNION {Rng(p.req) : p \in Rng(parts)}}
  \cup UNION {{<<Append(path, lb), "declared", "">>} \cup Atoms(PartsOf(SubsOf(parts, lb, 1)), Append(path, lb)) : lb \in Labels(parts)}

RECURSIVE Branches(_, _)
Branches(parts, path) ==
     UNION {{<<path, b[1], [n \in 1..Len(b[2]) |-> Atoms(Parts(b[2][n]), <<>>)]>> : b \in Rng(p.br)} : p \in Rng(parts)}
  \cup UNION {Branches(PartsOf(SubsOf(parts, lb, 1)), Append(path, lb)) : lb \in Labels(parts)}

RECURSIVE RulesHere(_, _)
RulesHere(parts, i) == IF i > Len(parts) THEN <<>> ELSE parts[i].rules \o RulesHere(parts, i + 1)
\* How often each validation rule stands at each place.
RECURSIVE RuleBag(_, _)
RuleBag(parts, path) ==
  LET rs == RulesHere(parts, 1)
  IN {<<path, r, Cardinality({i \in 1..Len(rs) : rs[i] = r})>> : r \in Rng(rs)}
     \cup UNION {RuleBag(PartsOf(SubsOf(parts, lb, 1)), Append(path, lb)) : lb \in Labels(parts)}

\* What a schema without references says.
Den(s) == [atoms |-> Atoms(Parts(s), <<>>), br |-> Branches(Parts(s), <<>>), rules |-> RuleBag(Parts(s), <<>>)]

\* Parts that cannot be merged: different types at a place where merging happens.
Types(parts) == {x[2] : x \in {y \in UNION {Rng(p.c) : p \in Rng(parts)} : y[1] = "type"}}
RECURSIVE Clash(_)
Clash(parts) ==
  \/ Cardinality(Types(parts)) > 1
  \/ \E lb \in Labels(parts) : LET ss == SubsOf(parts, lb, 1) IN
       IF lb = "i" THEN \E s \in Rng(ss) : Clash(Parts(s))     \* items of several parts stay apart
       ELSE Clash(PartsOf(ss))
  \/ \E p \in Rng(parts) : \E b \in Rng(p.br) : \E s \in Rng(b[2]) : Clash(Parts(s))

\* References replaced: a reference stands for the conjunction of the type and of what is written with the
\* reference; a type inside of itself is not expanded again.
RECURSIVE Expand(_, _, _)
Expand(E(_), s, inside) ==
  LET body == [s EXCEPT !.ref = "", !.subs = [i \in 1..Len(s.subs) |-> <<s.subs[i][1], Expand(E, s.subs[i][2], inside)>>],
                        !.all = [i \in 1..Len(s.all) |-> Expand(E, s.all[i], inside)],
                        !.br = [i \in 1..Len(s.br) |-> <<s.br[i][1], [n \in 1..Len(s.br[i][2]) |-> Expand(E, s.br[i][2][n], inside)]>>]]
  IN IF s.ref = "" THEN body
     ELSE LET t == IF s.ref \in inside THEN Empty ELSE Expand(E, E(s.ref), inside \cup {s.ref})
          IN [Empty EXCEPT !.all = <<t, [body EXCEPT !.desc = Empty.desc]>>,
                     !.desc = [i \in 1..4 |-> IF body.desc[i] # "" THEN body.desc[i] ELSE t.desc[i]]]

RECURSIVE HasRef(_)
HasRef(s) == \/ s.ref # ""
             \/ \E x \in Rng(s.subs) : HasRef(x[2])
             \/ \E x \in Rng(s.all) : HasRef(x)
             \/ \E b \in Rng(s.br) : \E x \in Rng(b[2]) : HasRef(x)

\* The description of every place only one part declares.
RECURSIVE Docs(_, _)
Docs(s, path) == {<<path, s.desc>>} \cup
  UNION {LET ss == SubsOf(Parts(s), lb, 1) IN IF Len(ss) = 1 THEN Docs(ss[1], Append(path, lb)) ELSE {} : lb \in Labels(Parts(s))}

\* What stays in a conjunction must be stated by several of its parts, and none of it may be mergeable.
Mergeable(name) == name \in {"type", "x-kubernetes-preserve-unknown-fields", "x-kubernetes-map-type"}
Says(p) == {x[1] : x \in Rng(p.c)} \cup {x[1] : x \in Rng(p.subs)} \cup {x[1] : x \in Rng(p.br)}
RECURSIVE Leftover(_)
Leftover(s) ==
  \/ \E n \in 1..Len(s.all) : LET p == s.all[n] IN
       \/ p.req # <<>> \/ p.rules # <<>> \/ p.all # <<>>
       \/ \E x \in Rng(p.subs) : x[1] # "i"
       \/ \E x \in Rng(p.c) : Mergeable(x[1])
       \/ \E x \in Says(p) : \A m \in 1..Len(s.all) : m # n => x \notin Says(s.all[m])
       \/ Leftover(p)
  \/ \E x \in Rng(s.subs) : Leftover(x[2])
  \/ \E b \in Rng(s.br) : \E x \in Rng(b[2]) : Leftover(x)
=============================================================================
