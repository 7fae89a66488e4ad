--------------------------- MODULE OptimizerRuns -----------------------------
(* Configurations of runs, drawn one choice after the other.                 *)
EXTENDS Integers, Emit
VARIABLES step, run
D(k) == CASE k = 1 -> {"scipy", "nlopt"} [] k = 2 -> 0..2 [] k = 3 -> 1..4 [] k = 4 -> {"none", "start", "easy", "middle", "hard"}
          [] k = 5 -> BOOLEAN [] k = 6 -> {1, 2, 5} [] k = 7 -> 0..2 [] k = 8 -> {1, 2, 5, 20} [] k = 9 -> 1..6
Name == <<"method", "lo", "levels", "stop", "cb", "nvar", "args", "maxiter", "fun">>
Init == step = 0 /\ run = <<>>
Next == step < 9 /\ step' = step + 1 /\ \E v \in D(step + 1) : run' = [n \in DOMAIN run \cup {Name[step + 1]} |-> IF n = Name[step + 1] THEN v ELSE run[n]]
Spec == Init /\ [][Next]_<<step, run>>
EmitRun == step = 9 => Emit("RUN", run)
=============================================================================
