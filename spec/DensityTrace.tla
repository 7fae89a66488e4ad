---------------------------- MODULE DensityTrace -----------------------------
(* Validates recorded densities: exact values, and the laws on any other.    *)
EXTENDS Density, Emit, IOUtils, Json
CONSTANTS Digits, Tol
VARIABLES i
Unit == 10 ^ Digits
Trace == ndJsonDeserialize(IOEnv.TRACE_DIR \o "/trace.ndjson")
ev == Trace[i]
Bad(clause) == Emit("BAD", [line |-> i, clause |-> clause])
Clause(name, ok) == IF ok THEN TRUE ELSE Bad(name)
Abs(n) == IF n < 0 THEN -n ELSE n
Same(got, v) == Near(got, v, Tol)
FixC(v) == << Fix(v[1], v[3], Digits), Fix(v[2], v[3], Digits) >>
SameC(got, v) == LET w == FixC(v) IN Same(got[1], w[1]) /\ Same(got[2], w[2])
Val(e) == C(e[1], e[2], 1)
Full == Len(ev.ans) = Len(ev.k)
Projected == Full /\ \A j \in DOMAIN ev.k : Same(ev.ans[j], FixR(Project(ev.k[j], ev.m, ev.t), Digits))
MultiProjected == Full /\ \A j \in DOMAIN ev.k : Same(ev.ans[j], MultiProject(ev.k[j], ev.m, ev.t) \div (10 ^ (7 - Digits)))
Mixed == Full /\ \A j \in DOMAIN ev.k : SameC(ev.ans[j], Simp(R(ev.k[j], ev.den), Val(ev.es[1]), Val(ev.es[2]), ev.m))
Interpolated == Full /\ LET es == [j \in DOMAIN ev.es |-> Val(ev.es[j])]
                        IN \A j \in DOMAIN ev.k : SameC(ev.ans[j], MultiSimp(R(ev.k[j], ev.den), es, ev.m))
(* increasing densities from 0 to 1 *)
Ends == LET n == Len(ev.ans) IN Near(ev.ans[1], ev.lo, Tol) /\ Near(ev.ans[n], ev.hi, Tol)
Ordered == \A j \in 1..(Len(ev.ans) - 1) : IF ev.lo <= ev.hi THEN ev.ans[j] <= ev.ans[j + 1] + 1 ELSE ev.ans[j] + 1 >= ev.ans[j + 1]
Between == \A j \in DOMAIN ev.ans : LET a == ev.ans[j] IN IF ev.lo <= ev.hi THEN ev.lo - Tol <= a /\ a <= ev.hi + Tol ELSE ev.hi - Tol <= a /\ a <= ev.lo + Tol
(* the projection of 1 - x with the complementary threshold *)
Complement == \A j \in DOMAIN ev.comp : Near(ev.ans[j] + ev.comp[j], ev.lo + ev.hi, 2 * Tol)
(* weights; -1: a filter much wider than the grid *)
Wide(N, q) == IF q = -1 THEN Flat(N) ELSE Kernel(N, q)
Turns(N, q) == IF N % 2 = 0 /\ q > 0 THEN {0, 1} ELSE {0}
(* between two points: either way *)
Matches(sx, sy) == LET wx == Wide(ev.N[1], ev.q[1])
                       wy == Wide(ev.N[2], ev.q[2])
                   IN \A a \in 1..ev.N[1], b \in 1..ev.N[2] :
                        Same(ev.ans[a][b], FixR(Filter(ev.x, wx, wy, a - 1 + sx, b - 1 + sy), Digits))
Shape == Len(ev.ans) = ev.N[1] /\ \A a \in DOMAIN ev.ans : Len(ev.ans[a]) = ev.N[2]
Filtered == Shape /\ \E sx \in Turns(ev.N[1], ev.q[1]), sy \in Turns(ev.N[2], ev.q[2]) : Matches(sx, sy)
(* rows of two answers that must agree *)
Agree == Len(ev.left) = Len(ev.right) /\ \A j \in DOMAIN ev.left : Near(ev.left[j], ev.right[j], 3 * Tol)
Inside == \A j \in DOMAIN ev.ans : ev.lo - Tol <= ev.ans[j] /\ ev.ans[j] <= ev.hi + Tol
Read == IF ev.err # "" THEN Bad("no answer")
        ELSE CASE ev.ev = "project" -> Clause("the projection", Projected)
               [] ev.ev = "multi" -> Clause("the mean of the projections", MultiProjected)
               [] ev.ev = "simp" -> Clause("the interpolation of two materials", Mixed)
               [] ev.ev = "msimp" -> Clause("the interpolation of several materials", Interpolated)
               [] ev.ev = "sweep" -> /\ Clause("0 and 1 map to the extreme values", Ends)
                                     /\ Clause("monotone", Ordered)
                                     /\ Clause("between the extreme values", Between)
                                     /\ Clause("complementary densities", Complement)
               [] ev.ev = "filter" -> Clause("the filtered density", Filtered)
               [] ev.ev = "agree" -> Clause(ev.law, Agree)
               [] ev.ev = "inside" -> Clause("a filtered density stays between the extreme densities", Inside)
Done == i = Len(Trace) => Emit("DONE", i)
TInit == i = 1
TNext == i <= Len(Trace) /\ Read /\ i' = i + 1 /\ Done
TSpec == TInit /\ [][TNext]_i
=============================================================================
