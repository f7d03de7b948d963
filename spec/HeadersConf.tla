---------------------------- MODULE HeadersConf ----------------------------
(* A generator run without and with header on the same packages: gen, args    *)
(* (header given, readable, pieces, year), name (of the manifest, where it is  *)
(* asked for), base and out: files with their text cut in pre, docs (or rest), *)
(* keys and metadata keys of the documents; head, the text with the header.    *)
EXTENDS Conf, Headers
Base(o, n) == CHOOSE b \in Rng(o.base) : b.name = n
Expected(o, b) == LET head == Fill(o.pieces, o.year) IN
  IF o.code THEN Code2(b.pre, head, b.rest) ELSE Manifest(head, b.docs)
Judge(o) ==
  LET names == {b.name : b \in Rng(o.base)}
      broken == o.given /\ ~o.readable
  IN {<<"base is not of documents", b.name>> : b \in {x \in Rng(o.base) : ~o.code /\ x.text # Manifest("", x.docs)}}
     \cup {<<"has other keys", ToString(d)>> : d \in {x \in UNION {Rng(b.keys) : b \in Rng(o.base)} : Rng(x.top) # Keys(o.gen) \/ ~(Rng(x.meta) \subseteq MetaKeys)}}
     \cup (IF o.basefailed THEN {<<"fails without header", o.gen>>} ELSE {})
     \cup (IF o.want # <<>> /\ names \notin {{}, Rng(o.want)} THEN {<<"named", ToString(names)>>} ELSE {})
     \cup (IF broken THEN (IF o.out # <<>> THEN {<<"written without its header", ToString(o.out[1].name)>>} ELSE {}) \cup (IF ~o.failed /\ names # {} THEN {<<"no error for the header", o.gen>>} ELSE {})
           ELSE (IF o.failed THEN {<<"fails", o.gen>>} ELSE {})
                \cup (IF {x.name : x \in Rng(o.out)} # names THEN {<<"other files", o.gen>>} ELSE
                {<<"is not header and content", x.name>> : x \in {y \in Rng(o.out) : y.text # Expected(o, Base(o, y.name))}}))
Next == ~done /\ done' = TRUE /\ l' = l /\ Report(l, Judge(Trace[l]))
=============================================================================
