----------------------------- MODULE MCIncidence -----------------------------
EXTENDS Incidence, Emit
EmitHist == Len(log) = MaxSteps => Emit("HIST", [base |-> base, log |-> log])
==============================================================================
