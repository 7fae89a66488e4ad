------------------------------ MODULE Momentum -------------------------------
(* The ledger of momentum (C27).  One quantum of light after the other goes  *)
(* through a stack: it is in an order (its lateral momentum is that of the   *)
(* incident wave and of as many reciprocal vectors as the order says), goes  *)
(* down or up, and carries a normal momentum that its order and its medium   *)
(* fix.  Interfaces turn it back, patterned layers also change its order,    *)
(* absorbing ones may keep it.  What a part of the stack gives or takes is   *)
(* the force on it: the stress integral on one of its sides minus the one on *)
(* the other.                                                                *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Quanta, MaxLayers, MaxOrder, MaxSteps
VARIABLES kinds,  \* kinds of the inner layers, from the top
          pos,    \* the gap the quantum is in: 0 above all layers ... Len(kinds)
          h, dir, \* its order <<a, b>> and direction (1 down)
          left, steps,
          lat, nrm,  \* lateral and normal momentum received by each layer
          out, kept  \* quanta that left <<order, dir>>, and momentum kept by absorption
vars == <<kinds, pos, h, dir, left, steps, lat, nrm, out, kept>>
Kinds == {"plain", "lines", "pattern", "absorbing"}
Orders == (-MaxOrder..MaxOrder) \X (-MaxOrder..MaxOrder)
(* normal momentum of an order in a gap (any function of both; 0: evanescent) *)
Nz(o) == LET s == o[1] * o[1] + o[2] * o[2] IN IF s = 0 THEN 3 ELSE IF s = 1 THEN 2 ELSE IF s = 2 THEN 1 ELSE 0
In0 == [o |-> <<0, 0>>, d |-> 1]
Add(u, v) == <<u[1] + v[1], u[2] + v[2]>>
Sub(u, v) == <<u[1] - v[1], u[2] - v[2]>>
Init == /\ kinds \in UNION {[1..n -> Kinds] : n \in 1..MaxLayers}
        /\ pos = 0 /\ h = <<0, 0>> /\ dir = 1 /\ left = Quanta /\ steps = 0
        /\ lat = [k \in 1..Len(kinds) |-> <<0, 0>>] /\ nrm = [k \in 1..Len(kinds) |-> 0]
        /\ out = <<>> /\ kept = 0
Layer == IF dir = 1 THEN pos + 1 ELSE pos
Inside == IF dir = 1 THEN pos < Len(kinds) ELSE pos > 0
(* the orders a layer can give *)
Gives(k) == IF k \in {"plain"} THEN {h} ELSE {o \in Orders : Nz(o) > 0 /\ (k = "lines" => o[2] = h[2])}
Scatter(o, d) == LET l == Layer IN
  /\ left > 0 /\ Inside /\ steps < MaxSteps /\ o \in Gives(kinds[l])
  /\ lat' = [lat EXCEPT ![l] = Add(@, Sub(h, o))] /\ nrm' = [nrm EXCEPT ![l] = @ + dir * Nz(h) - d * Nz(o)]
  /\ h' = o /\ dir' = d /\ pos' = (IF d = 1 THEN l ELSE l - 1) /\ steps' = steps + 1
  /\ UNCHANGED <<kinds, left, out, kept>>
Restart == pos' = 0 /\ h' = <<0, 0>> /\ dir' = 1 /\ left' = left - 1 /\ steps' = 0
Absorb == LET l == Layer IN
  /\ left > 0 /\ Inside /\ kinds[l] = "absorbing"
  /\ lat' = [lat EXCEPT ![l] = Add(@, h)] /\ nrm' = [nrm EXCEPT ![l] = @ + dir * Nz(h)] /\ kept' = kept + 1
  /\ Restart /\ UNCHANGED <<kinds, out>>
Leave == /\ left > 0 /\ ~Inside /\ out' = Append(out, [o |-> h, d |-> dir]) /\ Restart /\ UNCHANGED <<kinds, lat, nrm, kept>>
Next == Absorb \/ Leave \/ \E o \in Orders, d \in {1, -1} : Scatter(o, d)
Spec == Init /\ [][Next]_vars
------------------------------------------------------------------------------
RECURSIVE Total(_, _), TotalN(_, _)
Total(q, n) == IF n = 0 THEN <<0, 0>> ELSE Add(q[n], Total(q, n - 1))
TotalN(q, n) == IF n = 0 THEN 0 ELSE q[n] + TotalN(q, n - 1)
Outs == [k \in DOMAIN out |-> out[k].o]
OutN == [k \in DOMAIN out |-> out[k].d * Nz(out[k].o)]
Used == Quanta - left
(* the momentum received by the stack is what came in and did not go out     *)
BalanceOK == pos = 0 /\ dir = 1 /\ steps = 0 =>
  /\ Total(lat, Len(kinds)) = Sub(<<0, 0>>, Total(Outs, Len(out)))
  /\ TotalN(nrm, Len(kinds)) = Used * Nz(<<0, 0>>) - TotalN(OutN, Len(out))
(* layers without pattern get no lateral momentum, grooves none along them   *)
PlainOK == \A k \in DOMAIN kinds : (kinds[k] = "plain" => lat[k] = <<0, 0>>) /\ (kinds[k] = "lines" => lat[k][2] = 0)
QuantaOK == (pos = 0 /\ dir = 1 /\ steps = 0) => Len(out) + kept = Used
(* a stack without patterns receives momentum along the normal only          *)
NormalOK == (\A k \in DOMAIN kinds : kinds[k] = "plain") => \A k \in DOMAIN out : out[k].o = <<0, 0>>
==============================================================================
