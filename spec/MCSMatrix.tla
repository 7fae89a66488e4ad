----------------------------- MODULE MCSMatrix ------------------------------
EXTENDS SMatrix, Emit
cKaps == {<<0, 1>>, <<1, 1>>}
cQs == {<<1, 1>>, <<2, 1>>}
cSubQs == {<<0, 2, 1>>, <<1, 1, 1>>}
(* an evanescent layer has no exact phase: only layers of zero thickness *)
NoPhase == \A n \in 1..Len(stack) : stack[n].q[2] # 0 => stack[n].m = 0
Ok == NoPhase /\ \A p \in Pols, i, j \in 1..Len(stack) : i <= j => Small(S[p][i][j])
Cut == Ok => CutOK
Energy == Ok => EnergyOK
EmitCase == (Ok /\ Len(stack) > 1) => Emit("CASE", [kap |-> kap, stack |-> stack])
=============================================================================
