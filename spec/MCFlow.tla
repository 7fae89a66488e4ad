------------------------------- MODULE MCFlow --------------------------------
EXTENDS Flow, Emit
(* patterns of absorbing and lossless layers to be realized *)
EmitKinds == done => Emit("KINDS", kinds)
(* ledgers with the same totals are followed once *)
MCView == <<R, flux, kinds, done>>
=============================================================================
