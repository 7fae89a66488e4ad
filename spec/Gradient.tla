------------------------------ MODULE Gradient -------------------------------
(* Derivatives of computations (C22).                                        *)
(*                                                                           *)
(* A computation is a tape of elementary operations on one parameter.  The   *)
(* derivative is propagated backwards over the tape (what the backends do);  *)
(* it is the forward derivative, and it is the limit of the differences of   *)
(* the values, which five points give exactly up to degree four.             *)
(* Fault "detach": a product forgets one of its factors (a cached or         *)
(* converted value);  "conj": a quantity that passes through a complex array *)
(* leaves the derivative with an imaginary part.                             *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS MaxOps, Consts, Points, Fault
VARIABLES tape
Op(k, a, b) == [k |-> k, a |-> a, b |-> b]
Init == tape = <<Op("x", 0, 0)>>
Next == /\ Len(tape) < MaxOps
        /\ \/ \E c \in Consts : tape' = Append(tape, Op("c", c, 0))
           \/ \E i, j \in DOMAIN tape : i <= j /\ \E k \in {"add", "mul"} : tape' = Append(tape, Op(k, i, j))
Spec == Init /\ [][Next]_tape

RECURSIVE Degree(_, _)
Degree(t, n) == LET o == t[n] IN
  CASE o.k = "x" -> 1
    [] o.k = "c" -> 0
    [] o.k = "add" -> LET a == Degree(t, o.a) b == Degree(t, o.b) IN IF a > b THEN a ELSE b
    [] o.k = "mul" -> Degree(t, o.a) + Degree(t, o.b)
RECURSIVE Val(_, _, _)
Val(t, n, x) == LET o == t[n] IN
  CASE o.k = "x" -> x
    [] o.k = "c" -> o.a
    [] o.k = "add" -> Val(t, o.a, x) + Val(t, o.b, x)
    [] o.k = "mul" -> Val(t, o.a, x) * Val(t, o.b, x)
RECURSIVE Forward(_, _, _)
Forward(t, n, x) == LET o == t[n] IN
  CASE o.k = "x" -> 1
    [] o.k = "c" -> 0
    [] o.k = "add" -> Forward(t, o.a, x) + Forward(t, o.b, x)
    [] o.k = "mul" -> Forward(t, o.a, x) * Val(t, o.b, x) + Val(t, o.a, x) * Forward(t, o.b, x)
(* adjoints: bar[n] = d(result) / d(entry n) *)
RECURSIVE Back(_, _, _, _)
Back(t, n, bar, x) ==
  IF n = 0 THEN bar
  ELSE LET o == t[n]
           add(f, k, v) == [f EXCEPT ![k] = @ + v]
           next == CASE o.k \in {"x", "c"} -> bar
                     [] o.k = "add" -> add(add(bar, o.a, bar[n]), o.b, bar[n])
                     [] o.k = "mul" -> LET f == add(bar, o.a, bar[n] * Val(t, o.b, x))
                                       IN IF Fault = "detach" THEN f ELSE add(f, o.b, bar[n] * Val(t, o.a, x))
       IN Back(t, n - 1, next, x)
Reverse(t, x) == Back(t, Len(t), [k \in DOMAIN t |-> IF k = Len(t) THEN 1 ELSE 0], x)[1]

(* the five-point rule: 8 (f(h) - f(-h)) - (f(2h) - f(-2h)) = 12 h f' *)
Rule(d1, d2) == 8 * d1 - d2
Last(x) == Val(tape, Len(tape), x)
ModesOK == \A x \in Points : Reverse(tape, x) = Forward(tape, Len(tape), x)
DifferencesOK == Degree(tape, Len(tape)) <= 4 =>
  \A x \in Points : Rule(Last(x + 1) - Last(x - 1), Last(x + 2) - Last(x - 2)) = 12 * Reverse(tape, x)
=============================================================================
