----------------------------- MODULE EffMedium -------------------------------
(* The permittivity a grating has for its zeroth harmonic alone (C26).       *)
(*                                                                           *)
(* A pattern is drawn point by point: [e, dir] is a permittivity along two   *)
(* perpendicular axes (rationals) and the axis, 1 or 2, along which the      *)
(* interfaces run there.  With one harmonic a patterned layer acts as a film *)
(* whose permittivity along each axis depends on the formulation:            *)
(*   direct rule    the mean E of the permittivity,                          *)
(*   inverse rule   E where the field is along the interfaces and N, the     *)
(*                  inverse of the mean of the inverse, where it is across:  *)
(*                  E - (E - N) x (part of the points where it is across).   *)
(* All values are exact rationals.                                           *)
EXTENDS GaussRat, Sequences, FiniteSets
CONSTANTS Values,     \* permittivities <<n, d>>
          Iso,        \* the points are isotropic
          MaxPoints
VARIABLES pts, sum, inv, along
vars == <<pts, sum, inv, along>>
Axes == 1..2
Other(a) == 3 - a
R(x) == C(x[1], 0, x[2])
Init == /\ pts = <<>> /\ sum = [a \in Axes |-> Zero] /\ inv = [a \in Axes |-> Zero] /\ along = [a \in Axes |-> 0]
Draw(e, dir) == /\ Len(pts) < MaxPoints
                /\ pts' = Append(pts, [e |-> e, dir |-> dir])
                /\ sum' = [a \in Axes |-> Add(sum[a], R(e[a]))]
                /\ inv' = [a \in Axes |-> Add(inv[a], Inv(R(e[a])))]
                /\ along' = [along EXCEPT ![dir] = @ + 1]
Pairs == IF Iso THEN {<<v, v>> : v \in Values} ELSE Values \X Values
Next == \E e \in Pairs, dir \in Axes : Draw(e, dir)
Spec == Init /\ [][Next]_vars
---------------------------------------------------------------------------
n == Len(pts)
Mean(a) == Mul(sum[a], C(1, 0, n))
Harm(a) == Inv(Mul(inv[a], C(1, 0, n)))
Across(a) == C(along[Other(a)], 0, n)
Mix(mean, harm, across) == Sub(mean, Mul(Sub(mean, harm), across))
Eff(rule, a) == IF rule = "direct" THEN Mean(a) ELSE Mix(Mean(a), Harm(a), Across(a))
(* the same of a whole pattern p at once *)
RECURSIVE SumOf(_, _, _), Count(_, _)
SumOf(p, a, inverse) == IF p = <<>> THEN Zero ELSE LET e == R(p[1].e[a]) IN Add(IF inverse THEN Inv(e) ELSE e, SumOf(Tail(p), a, inverse))
Count(p, dir) == IF p = <<>> THEN 0 ELSE (IF p[1].dir = dir THEN 1 ELSE 0) + Count(Tail(p), dir)
EffOf(p, rule, a) == LET k == Len(p)
                         mean == Mul(SumOf(p, a, FALSE), C(1, 0, k))
                     IN IF rule = "direct" THEN mean ELSE Mix(mean, Inv(Mul(SumOf(p, a, TRUE), C(1, 0, k))), C(Count(p, Other(a)), 0, k))
(* grooves along the second axis *)
Grooved(p) == [k \in DOMAIN p |-> [p[k] EXCEPT !.dir = 2]]
WholeOK == n > 0 => \A a \in Axes, r \in {"direct", "inverse"} : EffOf(pts, r, a) = Eff(r, a)
Le(x, y) == x[1] * y[3] <= y[1] * x[3]
(* bounds of Wiener *)
WienerOK == n > 0 => \A a \in Axes, r \in {"direct", "inverse"} : Le(Harm(a), Eff(r, a)) /\ Le(Eff(r, a), Mean(a))
(* interfaces all along one axis: the classical values *)
ClassicOK == n > 0 => \A a \in Axes : /\ along[a] = n => Eff("inverse", a) = Mean(a)
                                      /\ along[Other(a)] = n => Eff("inverse", a) = Harm(a)
(* isotropic points: what one axis loses the other gains *)
TraceOK == (n > 0 /\ Iso) => Add(Eff("inverse", 1), Eff("inverse", 2)) = Add(Mean(1), Harm(1))
(* one material: every rule gives the material *)
UniformOK == n > 0 => \A a \in Axes : (\A k \in DOMAIN pts : pts[k].e[a] = pts[1].e[a]) => Eff("inverse", a) = R(pts[1].e[a])
=============================================================================
