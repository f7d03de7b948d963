------------------------------ MODULE ReproConf ------------------------------
(* A recorded history: the files that exist at any time (arts) and the runs   *)
(* in one directory, each with what it wrote and what it left (pairs of path  *)
(* and content id), its exit status and whether the outputs were removed      *)
(* before it.                                                                 *)
EXTENDS Conf, Repro
Val(prs, p) == {prs[k][2] : k \in {j \in 1..Len(prs) : prs[j][1] = p}}
Paths(prs) == {prs[k][1] : k \in 1..Len(prs)}
SameSet(s, t) == {s[i] : i \in 1..Len(s)} = {t[i] : i \in 1..Len(t)}
Judge(o) ==
  LET n == Len(o.runs) m == Len(o.arts)
      disk(i) == IF i = 0 THEN <<>> ELSE o.runs[i].wrote \o o.runs[i].kept IN
  UNION { LET art == o.arts[a] p == art.path W == [i \in 1..n |-> Val(o.runs[i].wrote, p)] IN
       { <<"differs", p, ToString(<<i, j>>)>> : <<i, j>> \in {x \in (1..n) \X (1..n) : /\ x[1] < x[2]
            /\ Concerned(art, o.runs[x[1]]) /\ Concerned(art, o.runs[x[2]]) /\ Key(art, o.runs[x[1]]) = Key(art, o.runs[x[2]])
            /\ W[x[1]] # W[x[2]]} }
       \cup { <<"written by another's run", p, ToString(i)>> : i \in {x \in 1..n : ~Concerned(art, o.runs[x]) /\ W[x] # {}} } : a \in 1..m }
  \cup UNION { LET r == o.runs[i] IN
       { <<"changed", p, ToString(i)>> : p \in {x \in Paths(r.kept) : r.clean \/ Val(r.kept, x) # Val(disk(i - 1), x)} }
       \cup { <<"removed", p, ToString(i)>> : p \in {x \in Paths(disk(i - 1)) : ~r.clean /\ x \notin Paths(disk(i))} }
       \cup { <<"exit differs", "", ToString(<<i, j>>)>> : j \in {x \in i + 1..n : o.runs[x].src = r.src /\ SameSet(r.gens, o.runs[x].gens) /\ SameSet(r.roots, o.runs[x].roots) /\ r.exit # o.runs[x].exit} } : i \in 1..n }
Next == ~done /\ done' = TRUE /\ l' = l /\ Report(l, Judge(Trace[l]))
=============================================================================
