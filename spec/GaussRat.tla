------------------------------ MODULE GaussRat ------------------------------
(* Exact arithmetic over the Gaussian rationals Q(i): <<re, im, den>> stands  *)
(* for (re + i im)/den, den > 0, in lowest terms.  TLC integers are 32 bit    *)
(* and TLC stops on overflow, so users bound the size of their values.        *)
EXTENDS Integers

LOCAL AbsI(x) == IF x < 0 THEN -x ELSE x
RECURSIVE GCD(_, _)
GCD(a, b) == IF b = 0 THEN a ELSE GCD(b, a % b)

Norm(re, im, den) ==
  LET s == IF den < 0 THEN -1 ELSE 1
      g == GCD(GCD(AbsI(re), AbsI(im)), AbsI(den))
  IN << (s * re) \div g, (s * im) \div g, (s * den) \div g >>

C(re, im, den) == Norm(re, im, den)
Zero == <<0, 0, 1>>
One  == <<1, 0, 1>>
I    == <<0, 1, 1>>

Add(x, y) == LET g == GCD(x[3], y[3])
                 a == y[3] \div g
                 b == x[3] \div g
             IN Norm(x[1] * a + y[1] * b, x[2] * a + y[2] * b, x[3] * a)
Neg(x) == << -x[1], -x[2], x[3] >>
Sub(x, y) == Add(x, Neg(y))
Mul(x, y) == Norm(x[1] * y[1] - x[2] * y[2], x[1] * y[2] + x[2] * y[1], x[3] * y[3])
Conj(x) == << x[1], -x[2], x[3] >>
Sq(x) == Mul(x, x)
IsZero(x) == x[1] = 0 /\ x[2] = 0
(* 1/x = den (re - i im) / (re^2 + im^2) *)
Inv(x) == Norm(x[3] * x[1], -(x[3] * x[2]), x[1] * x[1] + x[2] * x[2])
Div(x, y) == Mul(x, Inv(y))
(* |x|^2 as a (real) Gaussian rational *)
Abs2(x) == Norm(x[1] * x[1] + x[2] * x[2], 0, x[3] * x[3])
ReOf(x) == Norm(x[1], 0, x[3])
Half(x) == Norm(x[1], x[2], 2 * x[3])
Scale(k, x) == Norm(k * x[1], k * x[2], x[3])
MulI(x) == << -x[2], x[1], x[3] >>
(* The nearest-below fixed-point integer of n/d in units of 10^-k, by long division. *)
RECURSIVE FixDigits(_, _, _)
FixDigits(rem, d, k) == IF k = 0 THEN 0
                        ELSE ((10 * rem) \div d) * (10 ^ (k - 1)) + FixDigits((10 * rem) % d, d, k - 1)
FixPos(n, d, k) == (n \div d) * (10 ^ k) + FixDigits(n % d, d, k)
Fix(n, d, k) == IF n < 0 THEN -FixPos(-n, d, k) ELSE FixPos(n, d, k)
Near(a, b, tol) == AbsI(a - b) <= tol
(* magnitude bound *)
Below(x, lim) == AbsI(x[1]) < lim /\ AbsI(x[2]) < lim /\ x[3] < lim
=============================================================================
