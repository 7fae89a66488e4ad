--------------------------- MODULE SpectrumTrace -----------------------------
(* Validates recorded permittivities.  exact: small grids, point by point;   *)
(* coef: patterns given by their coefficients, by the spectrum of the answer *)
EXTENDS Spectrum, Emit, IOUtils, Json
CONSTANTS Unit, Tol
VARIABLES i
Trace == ndJsonDeserialize(IOEnv.TRACE_DIR \o "/trace.ndjson")
ev == Trace[i]
Bad(clause) == Emit("BAD", [line |-> i, clause |-> clause])
Clause(name, ok) == IF ok THEN TRUE ELSE Bad(name)
Abs(x) == IF x < 0 THEN -x ELSE x
Near(got, v) == Abs(got[1] - Unit * v[1]) <= Tol /\ Abs(got[2] - Unit * v[2]) <= Tol
Hs == {ev.H[k] : k \in DOMAIN ev.H}
Exact == /\ Len(ev.ans) = ev.N[1] /\ \A a \in DOMAIN ev.ans : Len(ev.ans[a]) = ev.N[2]
         /\ LET L == Limited([x \in Box(ev.N) |-> ev.g[x[1] + 1][x[2] + 1]], ev.N, Hs)
            IN \A x \in Box(ev.N) : Near(ev.ans[x[1] + 1][x[2] + 1], L[x])
(* coefficients modulo the grid; several may fall on one harmonic *)
RECURSIVE At(_, _, _)
At(q, k, h) == IF k = 0 THEN <<0, 0>> ELSE Plus(IF Mod(q[k].h, ev.N) = h THEN q[k].v ELSE <<0, 0>>, At(q, k - 1, h))
Want(h) == IF h \in {Mod(k, ev.N) : k \in Hs} THEN At(ev.coef, Len(ev.coef), h) ELSE <<0, 0>>
Got == [h \in {ev.ans[k].h : k \in DOMAIN ev.ans} |-> ev.ans[CHOOSE k \in DOMAIN ev.ans : ev.ans[k].h = h].v]
Coefs == LET asked == {Mod(ev.coef[k].h, ev.N) : k \in DOMAIN ev.coef}
             got == Got
         IN /\ \A h \in asked \cup DOMAIN got : Near(IF h \in DOMAIN got THEN got[h] ELSE <<0, 0>>, Want(h))
Read == IF ev.err # "" THEN Bad("no answer")
        ELSE CASE ev.ev = "exact" -> Clause("the pattern limited to the retained harmonics", Exact)
               [] ev.ev = "coef" -> Clause("the coefficients of the retained harmonics", Coefs)
               [] ev.ev = "uniform" -> Clause("the permittivity of a uniform layer", Near(ev.ans, ev.value))
Done == i = Len(Trace) => Emit("DONE", i)
TInit == i = 1
TNext == i <= Len(Trace) /\ Read /\ i' = i + 1 /\ Done
TSpec == TInit /\ [][TNext]_i
=============================================================================
