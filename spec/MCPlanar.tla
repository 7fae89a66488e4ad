------------------------------ MODULE MCPlanar ------------------------------
EXTENDS Planar, Emit
cKaps == {<<0, 1>>, <<1, 1>>, <<1, 2>>}
cQs == {<<1, 1>>, <<2, 1>>, <<3, 2>>}
cSubQs == {<<1, 0, 1>>, <<2, 0, 1>>, <<0, 1, 2>>, <<1, 1, 1>>, <<0, 2, 1>>}
gKaps == {<<0, 1>>, <<1, 1>>}
gQs == {<<1, 1>>, <<2, 1>>}
gSubQs == {<<1, 0, 1>>, <<2, 0, 1>>, <<0, 1, 1>>}
Inside == \A p \in Pols : Below(Y[p], Lim) /\ Below(dY[p], Lim)
(* invariants are evaluated before the constraint *)
Energy == Inside => EnergyOK
Passive == Inside => PassiveOK
Total == Inside => TotalOK
Flux == Inside => FluxOK
EmitCase == (Inside /\ (WithGrad => sel # 0)) =>
  Emit("CASE", [kap |-> kap, sub |-> sub, stack |-> stack, sel |-> sel, E2 |-> E2,
      inc |-> {[q0 |-> q0, R |-> [p \in Pols |-> R(p, q0)], T |-> [p \in Pols |-> T(p, q0)],
                r |-> [p \in Pols |-> Refl(p, q0)],
                dR |-> IF WithGrad THEN [p \in Pols |-> DR(p, q0)] ELSE [p \in Pols |-> Zero]] : q0 \in {q \in Qs : Incident(q)}}])
=============================================================================
