------------------------------- MODULE Serial -------------------------------
(* What the API server makes of a JSON value under a structural schema:      *)
(* Accepts (validation) and Kept (nothing is pruned).                        *)
(* A value: [k, s, n, fits, ps, es]: k its kind, s its text (scalars), n its *)
(*   length, fits the formats and patterns a string fits, ps the properties  *)
(*   [n, v] of an object, es the elements of an array.                       *)
(* A schema: [type, fmt, pat, null, ios, pres, emb, props, req, addl, items, *)
(*   any, all, one, enum, least, most]; what is optional is a sequence.      *)
EXTENDS Naturals, Sequences, FiniteSets
SeqSet(q) == {q[i] : i \in DOMAIN q}
Has(ps, n) == \E i \in DOMAIN ps : ps[i].n = n
At(ps, n) == CHOOSE i \in DOMAIN ps : ps[i].n = n
TypeOk(t, v) == \/ t = "" \/ t = v.k \/ (t = "number" /\ v.k = "integer")
RECURSIVE Accepts(_, _)
Accepts(s, v) ==
  IF v.k = "null" THEN s.null \/ (s.type = "" /\ ~s.ios)
  ELSE /\ TypeOk(s.type, v)
       /\ s.ios => v.k \in {"integer", "string"}
       /\ v.k = "string" =>
            /\ s.fmt \in {"byte", "date-time"} => s.fmt \in SeqSet(v.fits)
            /\ SeqSet(s.pat) \subseteq SeqSet(v.fits)
       /\ v.k \in {"string", "array", "object"} =>
            /\ \A i \in DOMAIN s.least : v.n >= s.least[i]
            /\ \A i \in DOMAIN s.most : v.n <= s.most[i]
       /\ s.enum # <<>> => v.s \in SeqSet(s.enum)
       /\ v.k = "object" =>
            /\ \A i \in DOMAIN s.req : Has(v.ps, s.req[i])
            /\ \A i \in DOMAIN v.ps :
                 IF Has(s.props, v.ps[i].n) THEN Accepts(s.props[At(s.props, v.ps[i].n)].s, v.ps[i].v)
                 ELSE s.addl # <<>> => Accepts(s.addl[1], v.ps[i].v)
       /\ v.k = "array" /\ s.items # <<>> => \A i \in DOMAIN v.es : Accepts(s.items[1], v.es[i])
       /\ \A i \in DOMAIN s.all : Accepts(s.all[i], v)
       /\ s.any # <<>> => \E i \in DOMAIN s.any : Accepts(s.any[i], v)
       /\ s.one # <<>> => Cardinality({i \in DOMAIN s.one : Accepts(s.one[i], v)}) = 1
Meta == {"apiVersion", "kind", "metadata"}
RECURSIVE Kept(_, _), HasObject(_)
\* Without a schema nothing of an object remains.
HasObject(v) == (v.k = "object" /\ v.ps # <<>>) \/ \E i \in DOMAIN v.es : HasObject(v.es[i])
KeptIn(q, v) == IF q = <<>> THEN ~HasObject(v) ELSE Kept(q[1], v)
\* Below a schema that keeps what it does not know, lists keep what their items do not know.
Inherit(s, q) == IF q = <<>> \/ ~s.pres THEN q ELSE <<[q[1] EXCEPT !.pres = TRUE]>>
Kept(s, v) ==
  CASE v.k = "object" ->
         \A i \in DOMAIN v.ps :
           \/ (s.emb /\ v.ps[i].n \in Meta)
           \/ IF Has(s.props, v.ps[i].n) THEN Kept(s.props[At(s.props, v.ps[i].n)].s, v.ps[i].v)
              ELSE IF s.addl # <<>> THEN Kept(s.addl[1], v.ps[i].v) ELSE s.pres
    [] v.k = "array" -> (s.pres /\ s.items = <<>>) \/ \A i \in DOMAIN v.es : KeptIn(Inherit(s, s.items), v.es[i])
    [] OTHER -> TRUE
=============================================================================
