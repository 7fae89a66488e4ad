------------------------------- MODULE MCWalk --------------------------------
EXTENDS Walk, Emit
cKaps == {<<0, 1>>, <<1, 1>>, <<1, 2>>}
cQs == {<<1, 1>>, <<2, 1>>, <<1, 2>>}
cSubQs == {C(1, 0, 1), C(2, 0, 1), C(0, 1, 2), C(1, 3, 1), C(1, 1, 1)}
EmitCase == (Bounded /\ Len(stack) > 0) => Emit("CASE", [kap |-> kap, sub |-> sub, pol |-> pol, stack |-> stack])
=============================================================================
