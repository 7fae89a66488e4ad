------------------------------- MODULE MCPlot --------------------------------
EXTENDS Plot, Emit
EmitScene == (per = <<0, 0>> /\ k = 1) => Emit("SCENE", [layers |-> layers, nper |-> nper, dz |-> dz, null |-> null])
==============================================================================
