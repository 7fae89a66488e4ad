------------------------------ MODULE Backends -------------------------------
(* What a scene answers (C06): one number per scene, whatever the backend    *)
(* and precision in force, and whatever was in force before.                 *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Names, Scenes
VARIABLES backend, bits, table, log
vars == <<backend, bits, table, log>>
Unknown == 0
Init == backend = "numpy" /\ bits = 64 /\ table = [s \in Scenes |-> Unknown] /\ log = <<>>
Select(b) == backend' = b /\ log' = Append(log, <<"backend", b>>) /\ UNCHANGED <<bits, table>>
Precision(p) == bits' = p /\ log' = Append(log, <<"bits", p>>) /\ UNCHANGED <<backend, table>>
(* the first answer to a scene is that of all the others *)
Solve(s, answer) == /\ table[s] \in {Unknown, answer} /\ table' = [table EXCEPT ![s] = answer]
                    /\ log' = Append(log, <<"solve", s>>) /\ UNCHANGED <<backend, bits>>
=============================================================================
