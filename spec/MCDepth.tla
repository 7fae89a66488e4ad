------------------------------- MODULE MCDepth -------------------------------
EXTENDS Depth, Emit
EmitStack == Len(stack) = MaxLayers => Emit("STACK", stack)
==============================================================================
