----------------------------- MODULE FieldsGen -------------------------------
(* Emits every request of Fields, once.                                      *)
EXTENDS Fields, Emit
cHarms == << <<0, 0>> >>
cGrids == {<<4, 4>>, <<2, 4>>, <<4, 2>>, <<2, 2>>, <<4, 1>>, <<2, 1>>}
cVals == {<<1, 0>>}
EmitReq == Asked => Emit("REQ", req)
=============================================================================
