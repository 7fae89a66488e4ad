------------------------------ MODULE Density --------------------------------
(* Densities, projections, interpolation and filter of topology optimization *)
(* (C25), in exact rationals.  Densities are k/8; the sharpness of a         *)
(* projection is chosen so that exp(2 beta/8) = 2^m.                         *)
EXTENDS Integers, Sequences, GaussRat
RECURSIVE Pow(_, _)
Pow(b, e) == IF e = 0 THEN 1 ELSE b * Pow(b, e - 1)
RECURSIVE PowR(_, _)
PowR(x, e) == IF e = 0 THEN One ELSE Mul(x, PowR(x, e - 1))
R(n, d) == C(n, 0, d)
(* quotient of reals, reduced before it is formed *)
Quo(x, y) == LET g == GCD(x[3], y[3])
                 a == IF x[1] < 0 THEN -x[1] ELSE x[1]
                 b == IF y[1] < 0 THEN -y[1] ELSE y[1]
                 h == GCD(a, b)
             IN R((x[1] \div h) * (y[3] \div g), (x[3] \div g) * (y[1] \div h))
FixR(x, k) == Fix(x[1], x[3], k)
(* tanh(beta k/8) *)
Tanh(m, k) == IF k >= 0 THEN R(Pow(2, m * k) - 1, Pow(2, m * k) + 1) ELSE R(1 - Pow(2, -(m * k)), Pow(2, -(m * k)) + 1)
(* projection of k/8 with the threshold t/8 *)
Project(k, m, t) == Quo(Add(Tanh(m, t), Tanh(m, k - t)), Add(Tanh(m, t), Tanh(m, 8 - t)))
Simp(x, a, b, p) == Add(a, Mul(Sub(b, a), PowR(x, p)))
(* with the thresholds 1/n, ..., (n-1)/n, n dividing 8: the mean of the projections *)
RECURSIVE Projections(_, _, _, _)
Projections(k, m, n, j) == IF j = 0 THEN 0 ELSE FixR(Project(k, m, (8 * j) \div n), 7) + Projections(k, m, n, j - 1)
MultiProject(k, m, n) == Projections(k, m, n, n - 1) \div (n - 1)
(* the polynomial of x^p through the materials at 0, 1/(n-1), ..., 1 *)
RECURSIVE Prod(_, _, _, _)
Prod(us, u, j, k) == IF k = 0 THEN One ELSE IF k = j THEN Prod(us, u, j, k - 1)
                     ELSE Mul(Div(Sub(u, us[k]), Sub(us[j], us[k])), Prod(us, u, j, k - 1))
RECURSIVE Lagr(_, _, _, _)
Lagr(us, es, u, j) == IF j = 0 THEN Zero ELSE Add(Mul(es[j], Prod(us, u, j, Len(us))), Lagr(us, es, u, j - 1))
MultiSimp(x, es, p) == LET n == Len(es)
                       IN Lagr([k \in 1..n |-> PowR(R(k - 1, n - 1), p)], es, PowR(x, p), n)
(* periodic convolution with weights w (odd number, centred), over their sum *)
RECURSIVE SumSeq(_, _)
SumSeq(w, k) == IF k = 0 THEN 0 ELSE w[k] + SumSeq(w, k - 1)
At(x, a, b) == x[1 + (a % Len(x))][1 + (b % Len(x[1]))]
RECURSIVE RowSum(_, _, _, _, _)
RowSum(x, wy, a, b, k) == IF k = 0 THEN 0 ELSE wy[k] * At(x, a, b + k - 1 - (Len(wy) \div 2)) + RowSum(x, wy, a, b, k - 1)
RECURSIVE BoxSum(_, _, _, _, _, _)
BoxSum(x, wx, wy, a, b, k) == IF k = 0 THEN 0 ELSE wx[k] * RowSum(x, wy, a + k - 1 - (Len(wx) \div 2), b, Len(wy)) + BoxSum(x, wx, wy, a, b, k - 1)
(* Gaussian weights 2^(-q j^2) of N points, j the distance to the middle, times the power of 2 that makes
   them integers.  N even: the middle is between two points, j = k + 1/2, and the filter shifts by half a point. *)
Weights(N, q) == LET h == N \div 2
                     e(k) == LET j == k - 1 - h IN IF N % 2 = 1 THEN j * j ELSE j * (j + 1)
                 IN [k \in 1..N |-> Pow(2, q * (e(1) - e(k)))]
Flat(N) == [k \in 1..N |-> 1]
Delta(N) == [k \in 1..N |-> IF k = 1 + (N \div 2) THEN 1 ELSE 0]
(* 0: no filter in this direction *)
Kernel(N, q) == IF q = 0 THEN Delta(N) ELSE Weights(N, q)
Filter(x, wx, wy, a, b) == R(BoxSum(x, wx, wy, a, b, Len(wx)), SumSeq(wx, Len(wx)) * SumSeq(wy, Len(wy)))
Leq(x, y) == LET d == Sub(y, x) IN d[1] >= 0
=============================================================================
