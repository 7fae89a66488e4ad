-------------------------------- MODULE Emit --------------------------------
(* Output channel of all specifications: one line "TAG json" per emitted value. *)
EXTENDS TLC, Json, Sequences
Emit(tag, x) == PrintT(tag \o " " \o ToJson(x))
=============================================================================
