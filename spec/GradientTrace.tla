--------------------------- MODULE GradientTrace -----------------------------
(* Validates recorded gradients.  steps: differences f(h)-f(-h), f(2h)-f(-2h)*)
(* and 12 h g.D along directions D, in one unit of 1e-8 to 1e-12;           *)
(* null, scale..: what must vanish, in units of 1e-6.                        *)
EXTENDS Integers, Sequences, FiniteSets, Emit, IOUtils, Json
CONSTANTS Tol, Rel, NullTol
VARIABLES i, first
G == INSTANCE Gradient WITH MaxOps <- 0, Consts <- {}, Points <- {}, Fault <- "none", tape <- <<>>
Trace == ndJsonDeserialize(IOEnv.TRACE_DIR \o "/trace.ndjson")
ev == Trace[i]
Bad(clause) == Emit("BAD", [line |-> i, clause |-> clause])
Clause(name, ok) == IF ok THEN TRUE ELSE Bad(name)
Abs(x) == IF x < 0 THEN -x ELSE x
Max(a, b) == IF a > b THEN a ELSE b
Near(a, b, t) == Abs(a - b) <= t + Max(Abs(a), Abs(b)) \div Rel
(* the step is small enough for the values to be smooth, large enough for rounding not to matter *)
Resolved(s) == Abs(s.d1) < 200000000 /\ Abs(s.d2) < 400000000 /\ Abs(s.d2 - 2 * s.d1) <= Abs(s.d1) \div 4000 + 2 * Tol
Follows(s) == IF Resolved(s) THEN Near(G!Rule(s.d1, s.d2), s.g, Tol + Abs(s.d2 - 2 * s.d1) \div 4) ELSE TRUE
Same(a, b) == Len(a) = Len(b) /\ \A k \in DOMAIN a : Near(a[k], b[k], 20)
Read == IF ev.err # "" THEN Bad("no gradient") /\ UNCHANGED first
        ELSE /\ Clause("the gradient of a function of real parameters is real", ev.real)
             /\ Clause("the gradient is finite", ev.finite)
             /\ \A k \in DOMAIN ev.steps : Clause("the gradient along " \o ev.steps[k].group, Follows(ev.steps[k]))
             /\ Clause("energy is conserved to first order", Abs(ev.null) <= NullTol)
             /\ Clause("the gradient with respect to some of the parameters", Abs(ev.alone) <= NullTol)
             /\ Clause("scaling of permittivities and wavelength", Abs(ev.scale) <= NullTol)
             /\ Clause("the gradient of the total is the sum of those of the orders", Abs(ev.sum) <= NullTol)
             /\ IF ev.scene \in DOMAIN first
                THEN UNCHANGED first /\ Clause("the same gradient", Same(ev.sample, Trace[first[ev.scene]].sample))
                ELSE first' = [s \in DOMAIN first \cup {ev.scene} |-> IF s = ev.scene THEN i ELSE first[s]]
Done == i = Len(Trace) => Emit("DONE", i)
TInit == i = 1 /\ first = [s \in {} |-> 0]
TNext == i <= Len(Trace) /\ Read /\ i' = i + 1 /\ Done
TSpec == TInit /\ [][TNext]_<<i, first>>
=============================================================================
