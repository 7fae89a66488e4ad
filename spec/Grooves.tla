------------------------------- MODULE Grooves -------------------------------
(* Descriptions of one lamellar grating (C26).                               *)
(*                                                                           *)
(* A description says how the lattice is given (mono-periodic, or            *)
(* bi-periodic with a second vector along the grooves, in any order, with a  *)
(* first vector leaning along the grooves), in which direction g the grating *)
(* varies, which formulation is used and, for those that use one, where the  *)
(* tangent field comes from, its sign and its length.  Changes of the        *)
(* description keep the permittivities seen across and along the grooves,    *)
(* which depend on the rule of the formulation only.                         *)
EXTENDS GaussRat, Sequences, FiniteSets
CONSTANTS Dirs,      \* directions of variation, integer vectors
          MaxSteps
VARIABLES d, steps
vars == <<d, steps>>
Forms == {"original", "tangent", "pol", "jones"}
Sources == {"user", "fft", "opt"}
Mono == [dim |-> 1, swap |-> 0, skew |-> 0, g |-> <<1, 0>>, form |-> "original", src |-> "fft", sign |-> 0, length |-> 0]
(* jones fields are tangent to the interfaces where they have unit length *)
WF(x) == /\ x.dim = 1 => x.swap = 0 /\ x.skew = 0 /\ x.g = <<1, 0>> /\ x.form \in {"original", "tangent"} /\ x.src # "user"
         /\ x.form = "jones" => x.src = "user" /\ x.length = 0
         /\ x.src # "user" => x.sign = 0 /\ x.length = 0
Rule(x) == IF x.form = "original" THEN "direct" ELSE "inverse"
(* the permittivity tensor a layer has for one harmonic, from the tangent field of the description *)
E == C(5, 0, 2)
N == C(8, 0, 5)
Tangent(x) == LET s == IF x.sign = 1 THEN -1 ELSE 1
                  l == x.length + 1
              IN << -(s * l * x.g[2]), s * l * x.g[1] >>
Normal(t) == << t[2], -t[1] >>
Tensor(x) == LET v == Normal(Tangent(x))
                 q == v[1] * v[1] + v[2] * v[2]
             IN [i \in 1..2 |-> [j \in 1..2 |-> Sub(IF i = j THEN E ELSE Zero,
                  IF Rule(x) = "direct" THEN Zero ELSE Mul(Sub(E, N), C(v[i] * v[j], 0, q)))]]
Along(T, v) == LET q == v[1] * v[1] + v[2] * v[2]
               IN Mul(Add(Add(Scale(v[1] * v[1], T[1][1]), Scale(v[1] * v[2], T[1][2])), Add(Scale(v[2] * v[1], T[2][1]), Scale(v[2] * v[2], T[2][2]))), C(1, 0, q))
Seen(x) == << Along(Tensor(x), x.g), Along(Tensor(x), << -x.g[2], x.g[1] >>) >>
Init == d = Mono /\ steps = 0
Change(x) == steps < MaxSteps /\ WF(x) /\ x # d /\ d' = x /\ steps' = steps + 1
Lift == d.dim = 1 /\ Change([d EXCEPT !.dim = 2])
Lower == d.dim = 2 /\ Change([Mono EXCEPT !.form = IF d.form = "original" THEN "original" ELSE "tangent"])
Swap == Change([d EXCEPT !.swap = 1 - @])
Skew(k) == Change([d EXCEPT !.skew = k])
Turn(g) == Change([d EXCEPT !.g = g])
Form(f) == Change(IF f = "jones" THEN [d EXCEPT !.form = f, !.src = "user", !.length = 0] ELSE [d EXCEPT !.form = f])
Source(s) == Change(IF s = "user" THEN [d EXCEPT !.src = s] ELSE [d EXCEPT !.src = s, !.sign = 0, !.length = 0])
Sign(k) == Change([d EXCEPT !.sign = k])
Length(k) == Change([d EXCEPT !.length = k])
Next == \/ Lift \/ Lower \/ Swap \/ (\E k \in 0..3 : Skew(k)) \/ (\E g \in Dirs : Turn(g))
        \/ (\E f \in Forms : Form(f)) \/ (\E s \in Sources : Source(s)) \/ (\E k \in 0..2 : Sign(k)) \/ (\E k \in 0..2 : Length(k))
Spec == Init /\ [][Next]_vars
---------------------------------------------------------------------------
WellFormed == WF(d)
(* the axes of the grating see the same permittivities however it is described *)
SeenOK == Seen(d) = IF Rule(d) = "direct" THEN << E, E >> ELSE << N, E >>
(* and nothing couples them *)
CoupledOK == LET T == Tensor(d)
                 g == d.g
             IN IsZero(Add(Add(Scale(-(g[1] * g[2]), T[1][1]), Scale(g[1] * g[1], T[1][2])), Add(Scale(-(g[2] * g[2]), T[2][1]), Scale(g[2] * g[1], T[2][2]))))
=============================================================================
