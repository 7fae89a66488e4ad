-------------------------------- MODULE Depth --------------------------------
(* Layers of any thickness (C33).  Magnitudes are powers of ten, products are *)
(* sums and sums are maxima; a number below 10^-Range is zero, one above      *)
(* 10^Range is lost.  Layers are added one after another to a scattering      *)
(* matrix; every interface reflects and passes waves of order one.  A layer   *)
(* takes its exponent a from every wave that crosses it.  Transfer: the       *)
(* variant that multiplies transfer matrices, which hold growing waves.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Atts,        \* exponents of layers
          MaxLayers, Range,
          Digits,      \* exponents of what counts beside one
          Transfer
VARIABLES stack, s21, s12, s22, echo, lost
vars == <<stack, s21, s12, s22, echo, lost>>
Zero == -100000
Low(x) == IF x < -Range THEN Zero ELSE x
Mul(x, y) == IF x = Zero \/ y = Zero THEN Zero ELSE Low(x + y)
Max(x, y) == IF x > y THEN x ELSE y
RECURSIVE Total(_, _)
Total(s, k) == IF k = 0 THEN 0 ELSE s[k] + Total(s, k - 1)
A == Total(stack, Len(stack))
(* a layer and the interface beneath it *)
Add(a) ==
  /\ Len(stack) < MaxLayers
  /\ stack' = Append(stack, a)
  /\ IF Transfer
     THEN LET t == IF s21 = Zero THEN Zero ELSE a - s21        \* the growing wave
          IN /\ lost' = (lost \/ t > Range) /\ s21' = IF t = Zero \/ t > Range THEN Zero ELSE -t
             /\ s12' = s21' /\ s22' = 0 /\ echo' = Append(echo, IF s21' = Zero THEN Zero ELSE 2 * s21')
     ELSE /\ s21' = Mul(s21, -a) /\ s12' = Mul(-a, s12) /\ s22' = Max(0, Mul(-2 * a, s22))
          /\ echo' = Append(echo, Mul(s21', s12')) /\ UNCHANGED lost
(* the first interface is above the first layer *)
Init == stack = <<>> /\ s21 = 0 /\ s12 = 0 /\ s22 = 0 /\ echo = <<0>> /\ lost = FALSE
Next == \E a \in Atts : Add(a)
Spec == Init /\ [][Next]_vars
------------------------------------------------------------------------------
BoundOK == ~lost /\ \A x \in {s21, s12, s22} \cup {echo[k] : k \in DOMAIN echo} : x <= 0
(* what passes is what the layers leave of it *)
ThroughOK == s21 = IF A > Range THEN Zero ELSE -A
(* what is beneath enough of them cannot be seen from above *)
Above(k) == Total(stack, k - 1)
SeenOK == Digits < Range => \A k \in 1..Len(echo) : (echo[k] >= -Digits) = (2 * Above(k) <= Digits)
(* the field at a depth of n / 10 of layer j: what comes down and what the interface beneath returns *)
Field(j, n) == LET d == Low(-Above(j)) a == stack[j] IN Max(Mul(d, -((n * a) \div 10)), Mul(Mul(d, -a), -(a - (n * a) \div 10)))
FieldOK == \A j \in 1..Len(stack) : \A n \in 0..9 :
             /\ Field(j, n) <= 0 /\ Field(j, n + 1) <= Field(j, n)
             /\ Above(j) + stack[j] < Range => Field(j, n) = -(Above(j) + (n * stack[j]) \div 10)
==============================================================================
