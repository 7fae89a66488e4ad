---------------------------- MODULE IncidenceTrace ----------------------------
(* Answers for the p state, the s state, a given mixture, and then any       *)
(* description of waves of the same direction (fixed point 1e-6).  lin:      *)
(* coefficients and fields; quad: powers, fluxes, stress.                    *)
EXTENDS Integers, Sequences, Emit, IOUtils
CONSTANT Tol
VARIABLES i, lp, ls, qp, qs, qx
tvars == <<i, lp, ls, qp, qs, qx>>
Trace == ndJsonDeserialize(IOEnv.TRACE_DIR \o "/trace.ndjson")
ev == Trace[i]
Is(name) == i <= Len(Trace) /\ ev.ev = name
Bad(clause) == Emit("BAD", [line |-> i, clause |-> clause])
Clause(name, ok) == IF ok THEN TRUE ELSE Bad(name)
Abs(x) == IF x < 0 THEN -x ELSE x
Clip == 30000000
Close(a, b) == Abs(a - b) <= Tol + (Abs(a) + Abs(b)) \div 50000
(* a x / 25, rounded towards zero *)
Mul(a, x) == IF (a < 0) = (x < 0) THEN (Abs(a) * Abs(x)) \div 25 ELSE -((Abs(a) * Abs(x)) \div 25)
Fine(v) == \A k \in DOMAIN v : Abs(v[k]) <= Clip
Begin == /\ Is("begin")
         /\ Clause("no answer", ev.err = "")
         /\ lp' = ev.lp /\ ls' = ev.ls /\ qp' = ev.qp /\ qs' = ev.qs
         (* the mixture 4/5 p + 3/5 s gives the interference of both *)
         /\ qx' = [k \in DOMAIN ev.qm |-> IF Abs(ev.qm[k]) > Clip \/ Abs(ev.qp[k]) > Clip \/ Abs(ev.qs[k]) > Clip THEN 0
                                          ELSE (25 * ev.qm[k] - 16 * ev.qp[k] - 9 * ev.qs[k]) \div 12]
         /\ Clause("the mixture is the superposition of both states",
                   \A k \in DOMAIN ev.lm : ~Fine(<<ev.lp[k], ev.ls[k]>>) \/ Close(ev.lm[k], Mul(20, ev.lp[k]) + Mul(15, ev.ls[k])))
Describe ==
  /\ Is("describe")
  /\ Clause("no answer", ev.err = "")
  /\ Clause("coefficients and fields superpose", \A k \in DOMAIN ev.lin : ~Fine(<<lp[k], ls[k]>>) \/ Close(ev.lin[k], Mul(ev.c, lp[k]) + Mul(ev.s, ls[k])))
  /\ Clause("powers, fluxes and stress follow the polarization",
            \A k \in DOMAIN ev.quad : ~Fine(<<qp[k], qs[k], qx[k]>>) \/
               Close(ev.quad[k], Mul(ev.c, Mul(ev.c, qp[k])) + Mul(ev.s, Mul(ev.s, qs[k])) + Mul(ev.c, Mul(ev.s, qx[k]))))
  /\ UNCHANGED <<lp, ls, qp, qs, qx>>
Done == i = Len(Trace) => Emit("DONE", i)
TInit == i = 1 /\ lp = <<>> /\ ls = <<>> /\ qp = <<>> /\ qs = <<>> /\ qx = <<>>
TNext == /\ i <= Len(Trace) /\ (Begin \/ Describe) /\ i' = i + 1 /\ Done
TSpec == TInit /\ [][TNext]_tvars
==============================================================================
