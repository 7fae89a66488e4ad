----------------------------- MODULE MCGrooves -------------------------------
EXTENDS Grooves, Emit
VARIABLE hist
few == {<<1, 0>>, <<0, 1>>, <<3, 4>>}
many == {<<1, 0>>, <<0, 1>>, <<3, 4>>, <<-4, 3>>, <<1, 1>>, <<5, -12>>, <<-1, 0>>, <<2, 1>>}
GInit == Init /\ hist = << d >>
GNext == Next /\ hist' = Append(hist, d')
GSpec == GInit /\ [][GNext]_<<vars, hist>>
View == d
EmitHist == steps = MaxSteps => Emit("HIST", hist)
=============================================================================
