---------------------------- MODULE GradientGen ------------------------------
(* What is differentiated: kind of stack, objective, formulation.            *)
EXTENDS Integers, Emit
VARIABLES k
Kinds == [dim : {1, 2}, loss : BOOLEAN, objective : {"R", "T", "order", "index", "mix"}, through : {"eps", "density"}, aniso : BOOLEAN, form : {"original", "tangent"}]
(* the tangent field of a two-dimensional pattern is no smooth function of it *)
Valid(c) == /\ c.form = "tangent" => c.dim = 1 /\ ~c.aniso
            /\ c.aniso => ~c.loss /\ c.through = "eps"
Init == k = 0
Next == k = 0 /\ \E c \in Kinds : Valid(c) /\ k' = 1 /\ Emit("KIND", c)
Spec == Init /\ [][Next]_k
=============================================================================
