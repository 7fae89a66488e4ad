------------------------------ MODULE Sampler --------------------------------
(* Adaptive sampling (C17) in exact integers.  Abscissas are integers, the   *)
(* function takes integer values unknown until a point is evaluated.         *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES xs,      \* points evaluated, sorted
          val,     \* their values
          pending, \* points to evaluate
          par,     \* [bend, relx, df]: limits; relx = 1/relx of the range, 0 for none; df likewise
          status   \* "sampling", "done", or "tie" (rounding decides: no more is said)
vars == <<xs, val, pending, par, status>>
Abs(x) == IF x < 0 THEN -x ELSE x
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a < b THEN b ELSE a
Min3(a, b, c) == Min2(a, Min2(b, c))
Max3(a, b, c) == Max2(a, Max2(b, c))
RECURSIVE GCD(_, _)
GCD(a, b) == IF b = 0 THEN a ELSE GCD(b, a % b)
RECURSIVE SortSet(_)
SortSet(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : \A z \in S : y <= z IN <<x>> \o SortSet(S \ {x})
Range(q) == {q[k] : k \in DOMAIN q}
RECURSIVE FoldMin(_, _)
FoldMin(q, k) == IF k = 1 THEN q[1] ELSE Min2(q[k], FoldMin(q, k - 1))
RECURSIVE FoldMax(_, _)
FoldMax(q, k) == IF k = 1 THEN q[1] ELSE Max2(q[k], FoldMax(q, k - 1))
---------------------------------------------------------------------------
(* cosine of the angle between the segments of a triple, in the box that     *)
(* holds it, against the cosine of the largest bend allowed: -1 bends more,  *)
(* 1 less, 0 equal                                                           *)
Sgn(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0
BendSide(xp, x0, xn, yp, y0, yn, bend) ==
  LET gx == GCD(x0 - xp, xn - x0)
      d0 == (x0 - xp) \div gx
      d1 == (xn - x0) \div gx
      lo == Min3(yp, y0, yn)
      up == Max3(yp, y0, yn)
      gy == GCD(GCD(Abs(y0 - yp), Abs(yn - y0)), up - lo)
      X == d0 + d1
      Y == (up - lo) \div gy
      a0 == d0 * Y
      a1 == d1 * Y
      b0 == ((y0 - yp) \div gy) * X
      b1 == ((yn - y0) \div gy) * X
      s == a0 * a1 + b0 * b1
      q == (a0 * a0 + b0 * b0) * (a1 * a1 + b1 * b1)
  IN IF lo = up THEN 1   \* flat
     ELSE IF bend = 90 THEN Sgn(s)
     ELSE IF s <= 0 THEN -1
     ELSE CASE bend = 60 -> Sgn(4 * s * s - q)
            [] bend = 45 -> Sgn(2 * s * s - q)
            [] bend = 30 -> Sgn(4 * s * s - 3 * q)
(* is the triple k of points to be refined: "yes", "no" or "tie"; y: values in order *)
Refine(x, y, k) ==
  LET xp == x[k]
      x0 == x[k + 1]
      xn == x[k + 2]
      range == x[Len(x)] - x[1]
      span == FoldMax(y, Len(y)) - FoldMin(y, Len(y))
      fine(d) == par.relx > 0 /\ d * par.relx < range
      small(d) == par.df > 0 /\ Abs(d) * par.df < span
      near == fine(xn - x0) /\ fine(x0 - xp)
      close == small(y[k + 1] - y[k]) /\ small(y[k + 2] - y[k + 1])
      uneven == xn - x0 > 3 * (x0 - xp) \/ x0 - xp > 3 * (xn - x0)
  IN IF near \/ close THEN "no"
     ELSE IF uneven THEN "yes"
     ELSE LET b == BendSide(xp, x0, xn, y[k], y[k + 1], y[k + 2], par.bend)
          IN IF b < 0 THEN "yes" ELSE IF b > 0 THEN "no" ELSE "tie"
(* the longer segment is cut, the second one when they are equal *)
Middle(x, k) == IF x[k + 1] - x[k] > x[k + 2] - x[k + 1] THEN (x[k] + x[k + 1]) \div 2 ELSE (x[k + 1] + x[k + 2]) \div 2
Triples == 1..(Len(xs) - 2)
Values == [k \in DOMAIN xs |-> val[xs[k]]]
Judged == LET y == Values IN [k \in Triples |-> Refine(xs, y, k)]
---------------------------------------------------------------------------
Eval(x, v) == /\ status = "sampling" /\ x \in pending
              /\ pending' = pending \ {x}
              /\ val' = [z \in DOMAIN val \cup {x} |-> IF z = x THEN v ELSE val[z]]
              /\ UNCHANGED <<xs, par, status>>
Decide == /\ status = "sampling" /\ pending = {} /\ Len(xs) # Cardinality(DOMAIN val)
          /\ xs' = SortSet(DOMAIN val) /\ UNCHANGED <<val, pending, par, status>>
Round == /\ status = "sampling" /\ pending = {} /\ Len(xs) = Cardinality(DOMAIN val)
         /\ LET j == Judged
                new == {Middle(xs, k) : k \in {t \in Triples : j[t] = "yes"}}
            IN IF \E k \in Triples : j[k] = "tie" THEN status' = "tie" /\ UNCHANGED pending
               ELSE pending' = new /\ status' = (IF new = {} THEN "done" ELSE "sampling")
         /\ UNCHANGED <<xs, val, par>>
=============================================================================
