------------------------------ MODULE Spectrum -------------------------------
(* The permittivity the solver sees (C15): a pattern on a grid, band-limited *)
(* to the retained harmonics.  Exact for grids of 1, 2 or 4 points a side,   *)
(* whose roots of unity are 1, i, -1, -i; values are Gaussian integers       *)
(* <<re, im>> and transforms carry the factor N1 N2.                         *)
EXTENDS Integers, Sequences, FiniteSets
Plus(a, b) == << a[1] + b[1], a[2] + b[2] >>
Times(k, a) == << k * a[1], k * a[2] >>
(* i^e a *)
Turn(e, a) == CASE e % 4 = 0 -> a [] e % 4 = 1 -> << -a[2], a[1] >> [] e % 4 = 2 -> << -a[1], -a[2] >> [] OTHER -> << a[2], -a[1] >>
Box(N) == (0..(N[1] - 1)) \X (0..(N[2] - 1))
(* quarter turns of the plane wave h at the point x *)
Phase(N, h, x) == h[1] * x[1] * (4 \div N[1]) + h[2] * x[2] * (4 \div N[2])
RECURSIVE SumOver(_, _, _, _)
SumOver(f, S, N, h) == IF S = {} THEN <<0, 0>> ELSE LET x == CHOOSE y \in S : TRUE IN Plus(Turn(-Phase(N, h, x), f[x]), SumOver(f, S \ {x}, N, h))
(* N1 N2 times the coefficients of the pattern g *)
Coef(g, N, H) == [h \in H |-> SumOver(g, Box(N), N, h)]
RECURSIVE Back(_, _, _, _)
Back(c, H, N, x) == IF H = {} THEN <<0, 0>> ELSE LET h == CHOOSE y \in H : TRUE IN Plus(Turn(Phase(N, h, x), c[h]), Back(c, H \ {h}, N, x))
(* N1 N2 times the band-limited pattern *)
Limited(g, N, H) == LET c == Coef(g, N, H) IN [x \in Box(N) |-> Back(c, H, N, x)]
Mod(h, N) == << h[1] % N[1], h[2] % N[2] >>
=============================================================================
