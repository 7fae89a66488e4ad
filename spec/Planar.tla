------------------------------- MODULE Planar -------------------------------
(* Exact optics of planar multilayers (C08, C22).                            *)
(*                                                                           *)
(* A stack is built from the substrate upwards.  The state carries, for both *)
(* polarizations, the exact surface admittance  Y = H_t / E_t  seen from the *)
(* top of the stack built so far.  A medium with normalized normal wavenumber*)
(* q and in-plane wavenumber kap (in units of k0) has permittivity           *)
(* kap^2 + q^2 and admittance  q  (s)  or  eps/q  (p).  Every layer has an   *)
(* optical thickness  q k0 d = m pi/4, for which the admittance transform is *)
(* closed over the Gaussian rationals:                                       *)
(*     Y' = eta (Y c - i eta s) / (eta c - i Y s),  c = cos, s = sin.        *)
(* so reflectance, transmittance, field intensities at the interfaces and    *)
(* derivatives with respect to thicknesses are exact rational numbers.       *)
EXTENDS GaussRat, Sequences, FiniteSets

CONSTANTS MaxLayers,   \* number of inner layers
          Kaps,        \* set of in-plane wavenumbers (rationals <<n, d>>)
          Qs,          \* set of normal wavenumbers of inner layers and superstrates <<n, d>>
          SubQs,       \* set of normal wavenumbers of substrates, Gaussian rationals
          Phases,      \* set of m, optical thickness in units of pi/4
          Lim,         \* bound on numerators and denominators
          WithGrad     \* carry derivatives

VARIABLES kap, sub, stack, Y, E2, dY, sel

vars == <<kap, sub, stack, Y, E2, dY, sel>>

Pols == {"s", "p"}
Rat(x) == C(x[1], 0, x[2])
EpsOf(k, q) == Add(Sq(Rat(k)), Sq(q))                 \* q Gaussian rational
Eta(pol, k, q) == IF pol = "s" THEN q ELSE Div(EpsOf(k, q), q)

(* X / Z of Gaussian integers <<re, im>>, and the product with a rational    *)
DivG(X, Z) == Norm(X[1] * Z[1] + X[2] * Z[2], X[2] * Z[1] - X[1] * Z[2], Z[1] * Z[1] + Z[2] * Z[2])
(* integers N, D with y - i eta : eta - i y = N : D, for real eta            *)
Num(eta, y) == << eta[3] * y[1], eta[3] * y[2] - eta[1] * y[3] >>
Num3(eta, y) == << eta[3] * y[1], eta[3] * y[2] + eta[1] * y[3] >>
Den(eta, y) == << eta[1] * y[3] + eta[3] * y[2], -(eta[3] * y[1]) >>
Den3(eta, y) == << eta[1] * y[3] - eta[3] * y[2], eta[3] * y[1] >>
(* one admittance step, by phase modulo pi *)
Step(eta, y, m) ==
  CASE m % 4 = 0 -> y
    [] m % 4 = 2 -> Div(Sq(eta), y)
    [] m % 4 = 1 -> Mul(eta, DivG(Num(eta, y), Den(eta, y)))
    [] m % 4 = 3 -> Mul(eta, DivG(Num3(eta, y), Den3(eta, y)))
(* the step is possible: c eta - i Y s does not vanish *)
Possible(eta, y, m) ==
  CASE m % 4 = 0 -> TRUE
    [] m % 4 = 2 -> ~IsZero(y)
    [] m % 4 = 1 -> Den(eta, y) # <<0, 0>>
    [] m % 4 = 3 -> Den3(eta, y) # <<0, 0>>
(* (eta c - i Y s)^2 *)
Den2(eta, y, m) ==
  CASE m % 4 = 0 -> Sq(eta)
    [] m % 4 = 2 -> Neg(Sq(y))
    [] m % 4 = 1 -> Half(Sq(Sub(eta, MulI(y))))
    [] m % 4 = 3 -> Half(Sq(Add(eta, MulI(y))))
(* |E(top)|^2 / |E(bottom)|^2 = |c - i (Y/eta) s|^2 *)
Gain2(eta, y, m) ==
  CASE m % 4 = 0 -> One
    [] m % 4 = 2 -> Abs2(Div(y, eta))
    [] m % 4 = 1 -> Half(Abs2(Sub(One, MulI(Div(y, eta)))))
    [] m % 4 = 3 -> Half(Abs2(Add(One, MulI(Div(y, eta)))))
DStep(eta, y, dy, m, selected) ==
  LET d2 == Den2(eta, y, m)
      a == Div(Mul(Sq(eta), dy), d2)
      b == Div(MulI(Mul(eta, Sub(Sq(y), Sq(eta)))), d2)
  IN IF selected THEN Add(a, b) ELSE a

Init ==
  /\ kap \in Kaps
  /\ sub \in SubQs
  /\ ~IsZero(EpsOf(kap, sub))
  /\ stack = <<>>
  /\ Y = [p \in Pols |-> Eta(p, kap, sub)]
  /\ E2 = [p \in Pols |-> <<One>>]
  /\ dY = [p \in Pols |-> Zero]
  /\ sel = 0

AddLayer(q, m, selected) ==
  LET qq == Rat(q)
      step(p) == Step(Eta(p, kap, qq), Y[p], m)
  IN /\ Len(stack) < MaxLayers
     /\ \A p \in Pols : ~IsZero(Y[p]) /\ Possible(Eta(p, kap, qq), Y[p], m)
     /\ stack' = Append(stack, [q |-> q, m |-> m])
     /\ Y' = [p \in Pols |-> step(p)]
     /\ E2' = [p \in Pols |-> Append(E2[p], Gain2(Eta(p, kap, qq), Y[p], m))]
     /\ dY' = IF WithGrad THEN [p \in Pols |-> DStep(Eta(p, kap, qq), Y[p], dY[p], m, selected)] ELSE dY
     /\ sel' = IF selected THEN Len(stack) + 1 ELSE sel
     /\ UNCHANGED <<kap, sub>>

Next == \E q \in Qs, m \in Phases, s \in BOOLEAN :
          /\ (s => WithGrad /\ sel = 0)
          /\ AddLayer(q, m, s)
Spec == Init /\ [][Next]_vars

Bounded == \A p \in Pols : Below(Y[p], Lim) /\ Below(dY[p], Lim)

(* Incidence from a superstrate of normal wavenumber q0: with Y = (a + ib)/d *)
(* and eta0 = n/e,  r = (nd - ea - ieb) / (nd + ea + ieb)                     *)
RN(p, q0) == LET e0 == Eta(p, kap, Rat(q0)) IN << e0[1] * Y[p][3] - e0[3] * Y[p][1], -(e0[3] * Y[p][2]) >>
RD(p, q0) == LET e0 == Eta(p, kap, Rat(q0)) IN << e0[1] * Y[p][3] + e0[3] * Y[p][1], e0[3] * Y[p][2] >>
N2(z) == z[1] * z[1] + z[2] * z[2]
(* transmitted power: |t|^2 Re(Y)/eta0 with t = 2 eta0/(eta0+Y) *)
TN(p, q0) == LET e0 == Eta(p, kap, Rat(q0)) IN 4 * (e0[1] * Y[p][3]) * (e0[3] * Y[p][1])
Incident(q0) == \A p \in Pols : RD(p, q0) # <<0, 0>>
Refl(p, q0) == DivG(RN(p, q0), RD(p, q0))
R(p, q0) == Norm(N2(RN(p, q0)), 0, N2(RD(p, q0)))
T(p, q0) == Norm(TN(p, q0), 0, N2(RD(p, q0)))
DR(p, q0) == LET e0 == Eta(p, kap, Rat(q0))
                 dr == Div(Scale(-2, Mul(e0, dY[p])), Sq(Add(e0, Y[p])))
             IN Scale(2, ReOf(Mul(Conj(Refl(p, q0)), dr)))
---------------------------------------------------------------------------
(* Design invariants *)
EnergyOK == \A p \in Pols, q0 \in Qs : N2(RN(p, q0)) + TN(p, q0) = N2(RD(p, q0))
PassiveOK == \A p \in Pols, q0 \in Qs : TN(p, q0) >= 0
(* a lossless stack on a medium that carries no power reflects everything *)
TotalOK == \A p \in Pols, q0 \in Qs : (sub[1] = 0) => N2(RN(p, q0)) = N2(RD(p, q0))
(* Re(Y) |E|^2, the power flux, is the same at every interface of a lossless stack *)
ProdE2(p) == LET RECURSIVE F(_)
                 F(n) == IF n = 0 THEN One ELSE Mul(E2[p][n], F(n - 1))
             IN F(Len(E2[p]))
FluxOK == \A p \in Pols : (/\ Len(E2[p]) <= 3 /\ \A n \in DOMAIN E2[p] : Below(E2[p][n], 40)) /\ Below(Y[p], 40)
                 => Mul(ProdE2(p), ReOf(Y[p])) = ReOf(Eta(p, kap, sub))
(* a half-wave layer is absent *)
HalfWaveOK == [][stack' # stack /\ stack'[Len(stack')].m % 4 = 0 => Y' = Y]_vars
=============================================================================
