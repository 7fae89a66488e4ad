---------------------------- MODULE BackendsTrace ----------------------------
(* Validates the answers recorded in sessions: the first recorded answer to  *)
(* a scene, with numpy in double precision, is the answer of all the others. *)
EXTENDS Integers, Sequences, FiniteSets, Emit, IOUtils, Json
CONSTANTS Unit, Tol64, Tol32
VARIABLES i, first
Trace == ndJsonDeserialize(IOEnv.TRACE_DIR \o "/trace.ndjson")
ev == Trace[i]
Bad(clause) == Emit("BAD", [line |-> i, clause |-> clause])
Clause(name, ok) == IF ok THEN TRUE ELSE Bad(name)
Abs(x) == IF x < 0 THEN -x ELSE x
Tol == IF ev.bits = 64 THEN Tol64 ELSE Tol32
(* relative to the size of the value *)
Near(a, b) == Abs(a - b) <= Tol + (Tol * (Abs(b) \div 1000)) \div (Unit \div 1000)
Same(a, b) == Len(a) = Len(b) /\ \A k \in DOMAIN a : Near(a[k], b[k])
Read == IF ev.ev # "solve" THEN (IF ev.err = "" THEN TRUE ELSE Bad("a backend or precision cannot be selected")) /\ UNCHANGED first
        ELSE IF ev.err # "" THEN Bad("no answer") /\ UNCHANGED first
        ELSE IF ev.scene \notin DOMAIN first THEN first' = [s \in DOMAIN first \cup {ev.scene} |-> IF s = ev.scene THEN i ELSE first[s]]
        ELSE LET r == Trace[first[ev.scene]]
             IN /\ UNCHANGED first
                /\ Clause("the backend is the one selected", ev.backend = ev.selected)
                /\ Clause("harmonics", ev.harm = r.harm)
                /\ ev.harm = r.harm => /\ Clause("total efficiencies", Same(ev.total, r.total))
                                       /\ Clause("efficiencies of the orders", Same(ev.orders, r.orders))
                                       /\ Clause("complex coefficients", Same(ev.coefs, r.coefs))
                                       /\ Clause("Fourier coefficients of the fields", Same(ev.fourier, r.fourier))
                                       /\ Clause("fields on a grid", Same(ev.grid, r.grid))
                                       /\ Clause("stress integrals", Same(ev.stress, r.stress))
                                       /\ Clause("permittivity", Same(ev.eps, r.eps))
Done == i = Len(Trace) => Emit("DONE", i)
TInit == i = 1 /\ first = [s \in {} |-> 0]
TNext == i <= Len(Trace) /\ Read /\ i' = i + 1 /\ Done
TSpec == TInit /\ [][TNext]_<<i, first>>
=============================================================================
