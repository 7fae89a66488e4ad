------------------------------- MODULE MCPar ---------------------------------
EXTENDS Par, Emit
EmitRun == outcome # "" => Emit("RUN", [n |-> Len(args), workers |-> workers, fails |-> fails \cap Rng(started), order |-> finished])
=============================================================================
