------------------------------ MODULE RunLoop ------------------------------
(* Generators run one after another over all packages. A fault hits a         *)
(* generator at a package (the generator goes on with the next package), or   *)
(* as a whole (it returns early). Mode "run" is the right loop; "stop" gives  *)
(* up at the first failing generator, "lose" forgets errors about packages,   *)
(* "last" only looks at the last generator.                                   *)
EXTENDS Naturals, FiniteSets, Sequences
CONSTANTS Gens, Pkgs, Mode
Whole == 0
VARIABLES faults, g, p, written, generr, pkgerr, exit
vars == <<faults, g, p, written, generr, pkgerr, exit>>
Init == /\ faults \in SUBSET ((1..Gens) \X (0..Pkgs)) /\ g = 1 /\ p = 0 /\ written = {} /\ generr = FALSE /\ pkgerr = FALSE /\ exit = 99
Running == exit = 99 /\ g <= Gens
NextGen(failed) == /\ generr' = (IF Mode = "last" THEN failed ELSE generr \/ failed) /\ p' = 0
                   /\ g' = (IF Mode = "stop" /\ failed THEN Gens + 1 ELSE g + 1)
StartGen == Running /\ p = 0 /\ (IF <<g, Whole>> \in faults THEN NextGen(TRUE) ELSE p' = 1 /\ UNCHANGED <<g, generr>>) /\ UNCHANGED <<faults, written, pkgerr, exit>>
Package == /\ Running /\ p \in 1..Pkgs /\ p' = p + 1 /\ UNCHANGED <<faults, g, generr, exit>>
           /\ (IF <<g, p>> \in faults THEN pkgerr' = TRUE /\ UNCHANGED written ELSE written' = written \cup {<<g, p>>} /\ UNCHANGED pkgerr)
EndGen == Running /\ p > Pkgs /\ NextGen(FALSE) /\ UNCHANGED <<faults, written, pkgerr, exit>>
End == exit = 99 /\ g > Gens /\ exit' = (IF generr \/ (pkgerr /\ Mode # "lose") THEN 1 ELSE 0) /\ UNCHANGED <<faults, g, p, written, generr, pkgerr>>
Next == StartGen \/ Package \/ EndGen \/ End
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Verdict == exit # 99 => (exit = 1 <=> faults # {})
Complete == exit # 99 => \A i \in 1..Gens : \A j \in 1..Pkgs : (<<i, j>> \notin faults /\ <<i, Whole>> \notin faults) => <<i, j>> \in written
Nothing == \A w \in written : w \notin faults /\ <<w[1], Whole>> \notin faults
Ends == <>(exit # 99)
=============================================================================
