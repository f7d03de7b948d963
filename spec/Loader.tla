------------------------------- MODULE Loader -------------------------------
(* What root paths name. Directories are sequences of names from the top of a *)
(* tree. A tree has packages (directories), modules [dir, path] and replaced  *)
(* modules that can be reached by import path from the main module (uses:     *)
(* pairs of module directories). A root path is [kind, segs]: kind "fs" is    *)
(* relative to the working directory, "abs" to the top, "imp" an import path, *)
(* "file" a Go file's path relative to the working directory.                 *)
EXTENDS Naturals, Sequences, FiniteSets
Rng(s) == {s[i] : i \in 1..Len(s)}
Front(s) == SubSeq(s, 1, Len(s) - 1)
Last(s) == s[Len(s)]
IsPrefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
(* the directory reached from d by the segments *)
RECURSIVE Walk(_, _)
Walk(d, segs) == IF segs = <<>> THEN d ELSE
  Walk(CASE Head(segs) \in {".", ""} -> d [] Head(segs) = ".." -> (IF d = <<>> THEN d ELSE Front(d)) [] OTHER -> Append(d, Head(segs)), Tail(segs))
Modules(t) == {m.dir : m \in Rng(t.modules)}
ModuleOf(t, d) == LET ms == {m \in Modules(t) : IsPrefix(m, d)} IN CHOOSE m \in ms : \A n \in ms : Len(n) <= Len(m)
InModule(t, d) == \E m \in Modules(t) : IsPrefix(m, d)
(* hidden: a directory that patterns starting at d do not enter lies on the way *)
Hidden(t, d, p) == \E i \in (Len(d)+1)..Len(p) : p[i] \in Rng(t.hidden)
InTree(t, d) == {p \in Rng(t.pkgs) : IsPrefix(d, p) /\ ~Hidden(t, d, p) /\ ModuleOf(t, p) = ModuleOf(t, d)}
Below(t, d) == InTree(t, d) \cup UNION {InTree(t, m) : m \in {x \in Modules(t) : IsPrefix(d, x)}}
(* import paths: the module with the longest fitting path among those that can be reached *)
Reach(t, cwd) == {m \in Rng(t.modules) : m.dir = ModuleOf(t, cwd) \/ \E u \in Rng(t.uses) : u[1] = ModuleOf(t, cwd) /\ u[2] = m.dir}
Named(t, cwd, segs) == LET ms == {m \in Reach(t, cwd) : IsPrefix(m.path, segs)} IN
  {m.dir \o SubSeq(segs, Len(m.path) + 1, Len(segs)) : m \in {x \in ms : \A y \in ms : Len(y.path) <= Len(x.path)}}
DirOf(m, segs) == m.dir \o SubSeq(segs, Len(m.path) + 1, Len(segs))
(* the packages a root path names *)
Roots(t, cwd, r) ==
  CASE r.kind \in {"fs", "abs"} -> LET from == IF r.kind = "abs" THEN <<>> ELSE cwd IN
         IF r.segs # <<>> /\ Last(r.segs) = "..." THEN Below(t, Walk(from, Front(r.segs))) ELSE {Walk(from, r.segs)}
    [] r.kind = "imp" ->
         IF Last(r.segs) = "..." THEN {p \in Rng(t.pkgs) : \E m \in Reach(t, cwd) : ModuleOf(t, p) = m.dir /\ ~Hidden(t, m.dir, p) /\ IsPrefix(Front(r.segs), m.path \o SubSeq(p, Len(m.dir) + 1, Len(p)))}
         ELSE Named(t, cwd, r.segs)
    [] OTHER -> {}
All(t, cwd, rs) == IF rs = <<>> THEN {cwd} ELSE UNION {Roots(t, cwd, r) : r \in Rng(rs)}
(* packages given by their files: for every directory the files given *)
Files(t, cwd, rs) == LET fs == {Walk(cwd, r.segs) : r \in {x \in Rng(rs) : x.kind = "file"}} IN {<<Front(f), {Last(g) : g \in {h \in fs : Front(h) = Front(f)}}>> : f \in fs}
=============================================================================
