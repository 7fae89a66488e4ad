-------------------------------- MODULE Flow ---------------------------------
(* The ledger of power (C07).  A walk follows the power flux along the       *)
(* normal from the incidence medium down to the substrate: Unit arrives, R   *)
(* is sent back, absorbing layers take a part of what goes through, lossless *)
(* ones and interfaces take nothing, T leaves.                               *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Unit, MaxLayers
VARIABLES R, flux, taken, kinds, done, T
vars == <<R, flux, taken, kinds, done, T>>
Init == /\ R \in 0..Unit /\ flux = Unit - R /\ taken = <<>> /\ kinds = <<>> /\ done = FALSE /\ T = 0
Cross(lossy, t) == /\ ~done /\ Len(kinds) < MaxLayers
                   /\ t \in 0..flux /\ (~lossy => t = 0)
                   /\ kinds' = Append(kinds, lossy) /\ taken' = Append(taken, t) /\ flux' = flux - t
                   /\ UNCHANGED <<R, done, T>>
(* an absorbing substrate takes what enters it further down: T is the power entering it *)
Leave == ~done /\ done' = TRUE /\ T' = flux /\ UNCHANGED <<R, flux, taken, kinds>>
Next == Leave \/ \E l \in BOOLEAN, t \in 0..Unit : Cross(l, t)
Spec == Init /\ [][Next]_vars
---------------------------------------------------------------------------
RECURSIVE Sum(_, _)
Sum(q, n) == IF n = 0 THEN 0 ELSE q[n] + Sum(q, n - 1)
LedgerOK == R + Sum(taken, Len(taken)) + flux = Unit
LosslessOK == done /\ (\A n \in DOMAIN kinds : ~kinds[n]) => R + T = Unit
AbsorbOK == done => R + T <= Unit /\ T >= 0 /\ R >= 0
(* the flux never increases *)
MonotoneOK == [][flux' <= flux]_vars
(* lossless layers keep it *)
KeepOK == [][(kinds' # kinds /\ ~kinds'[Len(kinds')]) => flux' = flux]_vars
=============================================================================
