-------------------------------- MODULE Walk ---------------------------------
(* Fields across a stack (C13): interface conditions, outgoing waves and     *)
(* propagation, exact for planar stacks.                                     *)
(*                                                                           *)
(* The walk starts under the stack with a unit wave going down and climbs to *)
(* the incidence medium.  (E, H) are the tangential fields of one            *)
(* polarization, continuous at interfaces; in a layer of admittance eta and  *)
(* phase i^m they turn by  E c - i s H / eta,  H c - i eta s E.  The fields  *)
(* at the lower and upper face of each layer are recorded in the state.      *)
EXTENDS GaussRat, Sequences, FiniteSets
CONSTANTS Kaps, Qs, SubQs, Phases, MaxLayers, Lim
VARIABLES kap, sub, pol, stack, faces
vars == <<kap, sub, pol, stack, faces>>
Pols == {"s", "p"}
Rat(x) == C(x[1], 0, x[2])
EpsOf(k, q) == Add(Sq(Rat(k)), Sq(q))
Eta(p, k, q) == IF p = "s" THEN q ELSE Div(EpsOf(k, q), q)
Cos(m) == CASE m % 4 = 0 -> 1 [] m % 4 = 2 -> -1 [] OTHER -> 0
Sin(m) == CASE m % 4 = 1 -> 1 [] m % 4 = 3 -> -1 [] OTHER -> 0
Up(eta, f, m) == [E |-> Sub(Scale(Cos(m), f.E), Scale(Sin(m), MulI(Div(f.H, eta)))),
                  H |-> Sub(Scale(Cos(m), f.H), Scale(Sin(m), MulI(Mul(eta, f.E))))]
Top == IF stack = <<>> THEN [E |-> One, H |-> Eta(pol, kap, sub)] ELSE faces[Len(faces)].up
Small(f) == Below(f.E, Lim) /\ Below(f.H, Lim)
Init == /\ kap \in Kaps /\ sub \in SubQs /\ pol \in Pols
        /\ ~IsZero(EpsOf(kap, sub))
        /\ stack = <<>> /\ faces = <<>>
AddLayer(q, m) ==
  LET eta == Eta(pol, kap, Rat(q))
  IN /\ Len(stack) < MaxLayers
     /\ stack' = Append(stack, [q |-> q, m |-> m])
     /\ faces' = Append(faces, [down |-> Top, up |-> Up(eta, Top, m)])
     /\ UNCHANGED <<kap, sub, pol>>
Next == \E q \in Qs, m \in Phases : AddLayer(q, m)
Spec == Init /\ [][Next]_vars
Bounded == Small(Top)
---------------------------------------------------------------------------
Flux(f) == ReOf(Mul(f.E, Conj(f.H)))
(* lossless layers keep the flux of the transmitted wave *)
FluxOK == Bounded => \A n \in DOMAIN faces : /\ Flux(faces[n].down) = ReOf(Eta(pol, kap, sub))
                                  /\ Flux(faces[n].up) = ReOf(Eta(pol, kap, sub))
(* faces meet *)
ContinuousOK == \A n \in 1..(Len(faces) - 1) : faces[n + 1].down = faces[n].up
(* amplitudes of the waves in a medium of admittance e under the fields f *)
Down(e, f) == Half(Add(f.E, Div(f.H, e)))
UpW(e, f) == Half(Sub(f.E, Div(f.H, e)))
(* power of the two waves in any incidence medium *)
PowerOK == (Below(Top.E, 25) /\ Below(Top.H, 25)) => \A q \in Qs : LET e == Eta(pol, kap, Rat(q))
                         IN Mul(e, Sub(Abs2(Down(e, Top)), Abs2(UpW(e, Top)))) = Flux(Top)
(* under the stack there is no wave going up *)
OutgoingOK == IsZero(UpW(Eta(pol, kap, sub), IF faces = <<>> THEN Top ELSE faces[1].down))
=============================================================================
