----------------------------- MODULE MCBackends ------------------------------
(* Sessions of selections and solutions.  Fault "stale": what was compiled   *)
(* for the first precision is used for the others.                           *)
EXTENDS Backends, Emit
CONSTANTS Steps, Random, Fault
Some(S) == IF Random THEN {RandomElement(S)} ELSE S
(* every backend computes the same function of the scene *)
Physics(s) == s + 1
Compiled(s) == IF Fault = "stale" /\ backend = "jax" /\ bits = 32 THEN Physics(s) + 100 ELSE Physics(s)
Turn == IF Random THEN Len(log) % 3 ELSE 3
Step == \/ Turn # 1 /\ Turn # 2 /\ \E b \in Some(Names) : Select(b)
        \/ Turn \in {1, 3} /\ \E p \in Some({32, 64, 64}) : Precision(p)
        \/ Turn \in {2, 3} /\ \E s \in Some(Scenes) : Solve(s, Compiled(s))
Next == Len(log) < Steps /\ Step
Spec == Init /\ [][Next]_vars
SameOK == \A s \in Scenes : table[s] \in {Unknown, Physics(s)}
(* no solution is refused: an answer that differs from the first one would be *)
OpenOK == \A s \in Scenes : ENABLED Solve(s, Compiled(s))
EmitLog == Len(log) = Steps => Emit("SESSION", log)
names == {"numpy", "scipy", "autograd", "torch", "jax"}
=============================================================================
