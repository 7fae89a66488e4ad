------------------------------ MODULE SMatrix -------------------------------
(* Scattering matrices of ranges of layers (C23), exact for uniform layers.  *)
(*                                                                           *)
(* A stack is a sequence of layers [q, m]: normal wavenumber q (in units of  *)
(* k0) and optical thickness m pi/2, so the phase of a layer is i^m.  For a  *)
(* range i..j of layers the matrix maps (a_i at the top of i, b_j at the     *)
(* bottom of j) to (a_j at the top of j, b_i at the bottom of i), a and b    *)
(* being the downward and upward amplitudes of the in-plane magnetic field.  *)
(* Matrices of ranges are obtained from those of two adjacent layers         *)
(* (Fresnel) by the star product; the specification checks that where a      *)
(* range is cut does not matter and that energy is conserved.                *)
EXTENDS GaussRat, Sequences, FiniteSets, TLC

CONSTANTS Kaps, Qs, SubQs, Phases, MaxLen, Lim

VARIABLES kap, stack, S     \* S[pol][i][j]: matrix of the range i..j
vars == <<kap, stack, S>>
Pols == {"s", "p"}
Rat(x) == C(x[1], 0, x[2])
EpsOf(k, q) == Add(Sq(Rat(k)), Sq(q))
(* impedance of the layer for the tangential field ratio E / H *)
Z(pol, k, q) == IF pol = "s" THEN Inv(q) ELSE Div(q, EpsOf(k, q))
Ph(m) == CASE m % 4 = 0 -> One [] m % 4 = 1 -> I [] m % 4 = 2 -> Neg(One) [] m % 4 = 3 -> Neg(I)

Id == [s11 |-> One, s12 |-> Zero, s21 |-> Zero, s22 |-> One]
(* two adjacent layers *)
Pair(pol, k, A, B) ==
  LET z1 == Z(pol, k, A.q)
      z2 == Z(pol, k, B.q)
      d == Add(z1, z2)
      rho == Div(Sub(z1, z2), d)
      f1 == Ph(A.m)
      f2 == Ph(B.m)
  IN [s11 |-> Mul(f1, Add(One, rho)), s12 |-> Neg(Mul(f2, rho)), s21 |-> Mul(f1, rho), s22 |-> Mul(f2, Sub(One, rho))]
Star(A, B) ==
  LET d == Sub(One, Mul(A.s12, B.s21))
      up == Div(A.s11, d)                        \* a_k for a unit a_i
      dn == Div(Mul(A.s12, B.s22), d)            \* a_k for a unit b_n
  IN [s11 |-> Mul(B.s11, up), s12 |-> Add(B.s12, Mul(B.s11, dn)),
      s21 |-> Add(A.s21, Mul(A.s22, Mul(B.s21, up))), s22 |-> Mul(A.s22, Add(B.s22, Mul(B.s21, dn)))]
Starable(A, B) == ~IsZero(Sub(One, Mul(A.s12, B.s21)))
Small(A) == \A f \in DOMAIN A : Below(A[f], Lim)

Init == kap \in Kaps /\ stack = <<>> /\ S = [p \in Pols |-> <<>>]
AddLayer(q, m) ==
  LET n == Len(stack)
      L == [q |-> q, m |-> m]
      last(p) == Pair(p, kap, stack[n], L)
  IN /\ n < MaxLen
     /\ ~IsZero(EpsOf(kap, q))
     /\ \A p \in Pols : \A i \in 1..n : Small(S[p][i][n]) /\ Starable(S[p][i][n], last(p))
     /\ stack' = Append(stack, L)
     /\ S' = [p \in Pols |-> [i \in 1..(n + 1) |->
                IF i = n + 1 THEN [j \in {i} |-> Id]
                ELSE S[p][i] @@ ((n + 1) :> Star(S[p][i][n], last(p)))]]
     /\ UNCHANGED kap
Next == \E m \in Phases : \/ \E q \in Qs : AddLayer(Rat(q), m)
                          \/ \E q \in SubQs : AddLayer(q, m)
Spec == Init /\ [][Next]_vars
---------------------------------------------------------------------------
(* wherever the range is cut *)
CutOK == \A p \in Pols : \A i, k, j \in 1..Len(stack) :
           (i <= k /\ k <= j /\ Starable(S[p][i][k], S[p][k][j]))
             => Star(S[p][i][k], S[p][k][j]) = S[p][i][j]
(* lossless range between propagating media: the matrix is unitary for the   *)
(* power  Re Z |amplitude|^2                                                 *)
Real(x) == x[2] = 0
Unitary(p, i, j) ==
  LET M == S[p][i][j]
      zi == Z(p, kap, stack[i].q)
      zj == Z(p, kap, stack[j].q)
  IN /\ Add(Mul(zj, Abs2(M.s11)), Mul(zi, Abs2(M.s21))) = zi
     /\ Add(Mul(zj, Abs2(M.s12)), Mul(zi, Abs2(M.s22))) = zj
     /\ IsZero(Add(Mul(zj, Mul(M.s11, Conj(M.s12))), Mul(zi, Mul(M.s21, Conj(M.s22)))))
Lossless == \A n \in 1..Len(stack) : Real(stack[n].q)
EnergyOK == Lossless => \A p \in Pols : \A i, j \in 1..Len(stack) : i <= j => Unitary(p, i, j)
=============================================================================
