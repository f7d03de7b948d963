----------------------------- MODULE TypeTrace -----------------------------
(* What can be seen of type checking some packages: events <<"c", p>>, the    *)
(* references of p are looked for, and <<"t", p>>, p is type-checked. refs is *)
(* a set of pairs <<p, q>>: p refers to q in a way that matters.              *)
EXTENDS Naturals, Sequences, FiniteSets
RECURSIVE Closure(_, _)
Closure(refs, S) == LET T == S \cup {r[2] : r \in {x \in refs : x[1] \in S}} IN IF T = S THEN S ELSE Closure(refs, T)
At(h, e) == {i \in 1..Len(h) : h[i] = e}
(* nothing twice, nothing that is not needed, and in order *)
PrefixOK(refs, roots, h) ==
  /\ \A i \in 1..Len(h) : At(h, h[i]) = {i} /\ h[i][2] \in Closure(refs, roots)
  /\ \A i \in 1..Len(h) : h[i][1] = "t" => /\ \E j \in 1..(i-1) : h[j] = <<"c", h[i][2]>>
                                           /\ \A r \in refs : r[1] = h[i][2] => \E j \in 1..(i-1) : h[j] = <<"t", r[2]>>
  /\ \A i \in 1..Len(h) : h[i][1] = "c" => h[i][2] \in roots \/ \E j \in 1..(i-1) : h[j][1] = "c" /\ <<h[j][2], h[i][2]>> \in refs
TraceOK(refs, roots, h) == PrefixOK(refs, roots, h) /\ \A p \in Closure(refs, roots) : At(h, <<"c", p>>) # {} /\ At(h, <<"t", p>>) # {}
=============================================================================
