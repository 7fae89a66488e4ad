----------------------------- MODULE MCRewrite -------------------------------
EXTENDS Rewrite, Emit
VARIABLE hist
Desc == [stack |-> stack, outer |-> outer, names |-> names]
GInit == Init /\ hist = <<Desc>>
GNext == Next /\ hist' = Append(hist, Desc')
GSpec == GInit /\ [][GNext]_<<vars, hist>>
EmitHist == steps = MaxSteps => Emit("HIST", hist)
=============================================================================
