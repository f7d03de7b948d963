----------------------------- MODULE LoaderConf -----------------------------
(* An observation of loading root paths: the tree (with edges, the imports    *)
(* its sources mean), the working directory and paths, and what was loaded:   *)
(* roots by directory, packages of files, imports followed, and imports that  *)
(* lead to another object than the root of their directory.                   *)
EXTENDS Conf, Loader
Count(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
Judge(o) ==
  LET want == All(o.tree, o.cwd, o.paths) fwant == Files(o.tree, o.cwd, o.paths) edges == {<<e[1], e[2]>> : e \in Rng(o.tree.edges)} IN
  (IF o.err = "" THEN {} ELSE {<<"fails", o.err>>})
  \cup { <<"not loaded", ToString(p)>> : p \in want \ Rng(o.roots) }
  \cup { <<"loaded besides", ToString(p)>> : p \in Rng(o.roots) \ want }
  \cup { <<"loaded again", ToString(p)>> : p \in {x \in Rng(o.roots) : Count(o.roots, x) > 1} }
  \cup (IF {<<f[1], Rng(f[2])>> : f \in Rng(o.files)} = fwant /\ Len(o.files) = Cardinality(fwant) THEN {} ELSE {<<"files", ToString(o.files)>>})
  \cup { <<"not the root", f>> : f \in Rng(o.foreign) }
  \cup { <<"errors", e>> : e \in Rng(o.errs) }
  \cup { <<"import leads to", ToString(e)>> : e \in {x \in Rng(o.imports) : <<x[1], x[2]>> \notin edges} }
  \cup { <<"import does not lead to", ToString(e)>> : e \in {x \in edges : x[1] \in Rng(o.roots) /\ ~\E y \in Rng(o.imports) : <<y[1], y[2]>> = x} }
Next == ~done /\ done' = TRUE /\ l' = l /\ Report(l, Judge(Trace[l]))
=============================================================================
