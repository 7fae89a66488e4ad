------------------------------- MODULE MCCell --------------------------------
EXTENDS Cell, Emit
EmitCell == Emit("CELL", [b |-> b, den |-> den])
==============================================================================
