---------------------------- MODULE MCHarmonics -----------------------------
EXTENDS Harmonics, Emit
cBases == {<<1, 0, 0, 1>>, <<2, 0, 0, 1>>, <<1, 0, 0, 3>>, <<2, 0, 1, 2>>, <<1, 0, 1, 1>>, <<3, 1, -1, 2>>, <<4, 3, -3, 4>>, <<2, -1, 1, 3>>, <<5, 0, 2, 1>>,
           <<0, 1, 1, 0>>, <<-1, 2, 2, 1>>, <<3, 0, 2, 4>>, <<7, 0, 3, 6>>}
EmitCase == kind # "none" => Emit("CASE", [basis |-> basis, kind |-> kind, nh |-> nh, n |-> Cardinality(chosen), m |-> MaxAbs(chosen)])
=============================================================================
