------------------------------ MODULE MCFields -------------------------------
EXTENDS Fields, Emit
cHarms == << <<0, 0>>, <<1, -1>> >>
cGrids == {<<4, 4>>, <<2, 4>>, <<4, 1>>}
cVals == {<<1, 0>>, <<0, 2>>}

=============================================================================
