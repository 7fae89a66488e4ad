----------------------------- MODULE Harmonics ------------------------------
(* Harmonics retained on a lattice (C10) and their kinematics (C24).         *)
(*                                                                           *)
(* Basis vectors have integer components (in any unit, up to a rotation), so *)
(* squared lengths of reciprocal vectors are integers times a common factor: *)
(*     K(h) = 2 pi/det (h1 (vy, -vx) + h2 (-uy, ux)).                        *)
EXTENDS Integers, FiniteSets, Sequences

CONSTANTS Bases, MaxN, Box
VARIABLES basis,    \* <<ux, uy, vx, vy>>
          kind,     \* "circular", "parallelogrammic", "1D", "explicit"
          nh,       \* number of harmonics requested
          chosen    \* set of retained harmonics
vars == <<basis, kind, nh, chosen>>

Det(b) == b[1] * b[4] - b[2] * b[3]
G(b, h) == << h[1] * b[4] - h[2] * b[2], h[2] * b[1] - h[1] * b[3] >>
D(b, h) == LET g == G(b, h) IN g[1] * g[1] + g[2] * g[2]
Abs(x) == IF x < 0 THEN -x ELSE x
Zeroth == <<0, 0>>
Sq(m) == {<<i, j>> : i \in (-m)..m, j \in (-m)..m}
MaxAbs(S) == CHOOSE m \in 0..100 : /\ \E h \in S : Abs(h[1]) = m \/ Abs(h[2]) = m
                                   /\ \A h \in S : Abs(h[1]) <= m /\ Abs(h[2]) <= m
MaxD(b, S) == CHOOSE m \in {D(b, h) : h \in S} : \A h \in S : D(b, h) <= m
(* a box holding every harmonic not longer than r (squared): |h1| <= |u| |K|/2pi *)
Extent(b, r) == CHOOSE m \in 0..60 : /\ \A w \in {<<b[1], b[2]>>, <<b[3], b[4]>>} : (w[1] * w[1] + w[2] * w[2]) * r < (m + 1) * (m + 1) * Det(b) * Det(b)
                                     /\ (m = 0 \/ \E w \in {<<b[1], b[2]>>, <<b[3], b[4]>>} : (w[1] * w[1] + w[2] * w[2]) * r >= m * m * Det(b) * Det(b))
(* exactly the harmonics closer than some radius *)
Ball(b, r) == {h \in Sq(Extent(b, r)) : D(b, h) <= r}
IsBall(b, S) == S = Ball(b, MaxD(b, S))
(* the next shell *)
NextShell(b, S) ==
  LET r == MaxD(b, S)
      c == {h \in Sq(Extent(b, r) + 3) : D(b, h) > r}
      m == CHOOSE x \in {D(b, h) : h \in c} : \A h \in c : x <= D(b, h)
  IN {h \in Sq(Extent(b, m)) : D(b, h) = m}
Odd(n) == IF n % 2 = 1 THEN n ELSE n - 1
Root(n) == CHOOSE k \in 0..60 : k * k <= n /\ (k + 1) * (k + 1) > n
Half(n) == (n - 1) \div 2

(* what a request may return *)
Allowed(b, k, n, S) ==
  CASE k = "circular" -> /\ Zeroth \in S /\ IsBall(b, S) /\ Cardinality(S) <= n
                         /\ Cardinality(S) + Cardinality(NextShell(b, S)) >= n
    [] k = "parallelogrammic" -> S = Sq(Half(Odd(Root(n))))
    [] k = "1D" -> S = {<<i, 0>> : i \in (-Half(n))..Half(n)}
(* a discretization is accepted exactly when every index is resolved *)
Resolved(k, S, disc) == disc[1] > 2 * MaxAbs(S) /\ (k = "1D" \/ disc[2] > 2 * MaxAbs(S))

Init == basis \in Bases /\ kind = "none" /\ nh = 0 /\ chosen = {}
Radii(b) == {D(b, h) : h \in Sq(Box)}
Request == /\ kind = "none"
           /\ \E n \in 2..MaxN :
              /\ nh' = n
              /\ \/ /\ kind' = "circular"
                    /\ \E r \in Radii(basis) : chosen' = Ball(basis, r) /\ Allowed(basis, "circular", n, chosen')
                 \/ kind' = "parallelogrammic" /\ chosen' = Sq(Half(Odd(Root(n))))
                 \/ kind' = "1D" /\ chosen' = {<<i, 0>> : i \in (-Half(n))..Half(n)}
           /\ UNCHANGED basis
Spec == Init /\ [][Request]_vars
---------------------------------------------------------------------------
ZerothOK == kind # "none" => Zeroth \in chosen
NumberOK == kind # "none" => Cardinality(chosen) \in 1..nh
(* opposite orders come together *)
CentralOK == \A h \in chosen : <<-h[1], -h[2]>> \in chosen
(* an equivalent lattice basis retains the same reciprocal points *)
EquivOK == kind = "circular" =>
  LET b2 == <<basis[1], basis[2], basis[3] + basis[1], basis[4] + basis[2]>>
      S2 == {<<h[1], h[2] + h[1]>> : h \in chosen}
  IN IsBall(b2, S2)
(* no request is left without an answer *)
AnswerOK == kind = "none" => \A n \in 2..MaxN : \E r \in Radii(basis) : Allowed(basis, "circular", n, Ball(basis, r))
---------------------------------------------------------------------------
(* Kinematics: in units of the wavelength the basis is  basis / s  and the   *)
(* in-plane wavevector over k0 is  kin / q (integers kin), so that           *)
(* k(h)/k0 = (det kin + q s G(h)) / (q det).                                 *)
KNum(b, s, q, kin, h) == LET g == G(b, h) IN << Det(b) * kin[1] + q * s * g[1], Det(b) * kin[2] + q * s * g[2] >>
(* gamma^2 (q det)^2 in a medium of permittivity eps[1]/eps[2], times eps[2] *)
Gam(b, s, q, kin, h, eps) ==
  LET k == KNum(b, s, q, kin, h)
  IN eps[1] * (q * Det(b)) * (q * Det(b)) - eps[2] * (k[1] * k[1] + k[2] * k[2])
GamDen(b, q, eps) == eps[2] * (q * Det(b)) * (q * Det(b))
Propagates(b, s, q, kin, h, eps) == Gam(b, s, q, kin, h, eps) > 0
=============================================================================
