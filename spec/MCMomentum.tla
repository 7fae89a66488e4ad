----------------------------- MODULE MCMomentum ------------------------------
EXTENDS Momentum, Emit
(* the stacks to be realized *)
EmitKinds == left = Quanta /\ pos = 0 /\ steps = 0 => Emit("KINDS", kinds)
==============================================================================
