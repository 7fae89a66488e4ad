---------------------------- MODULE MCSymmetry -------------------------------
EXTENDS Symmetry, Emit
VARIABLE hist
Desc == [n |-> n, m |-> m, A |-> A, t |-> t, O |-> O, turn |-> turn, flip |-> flip, scale |-> scale]
GInit == Init /\ hist = <<Desc>>
GNext == Next /\ hist' = Append(hist, Desc')
GSpec == GInit /\ [][GNext]_<<vars, hist>>
EmitHist == steps = MaxSteps => Emit("HIST", hist)
mcSizes == {<<3, 3>>, <<4, 2>>}
mc1Sizes == {<<4, 1>>, <<5, 1>>}
genSizes == {<<24, 24>>, <<27, 27>>, <<36, 18>>, <<20, 30>>, <<25, 28>>}
gen1Sizes == {<<24, 1>>, <<27, 1>>, <<40, 1>>}
cellSizes == {<<12, 12>>, <<16, 16>>, <<13, 15>>, <<24, 12>>}
LiftKinds == {"basis", "tile", "turn", "flip", "translate"}
(* the kinds of operations of the two properties *)
AllKinds == {"translate", "basis", "tile", "turn", "flip", "scale"}
SymKinds == {"translate", "basis", "turn", "flip", "scale"}
MonoKinds == {"translate", "mirrors", "scale"}
CellKinds == {"tile", "basis", "translate"}
=============================================================================
