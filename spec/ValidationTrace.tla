--------------------------- MODULE ValidationTrace ---------------------------
(* Validates recorded calls: what was rejected, by which exception, and what *)
(* the objects answered afterwards.                                          *)
EXTENDS Validation, Emit, IOUtils, Json
VARIABLES i
Trace == ndJsonDeserialize(IOEnv.TRACE_DIR \o "/trace.ndjson")
ev == Trace[i]
Bad(clause) == Emit("BAD", [line |-> i, clause |-> clause])
Clause(name, ok) == IF ok THEN TRUE ELSE Bad(name)
Session == [dim |-> ev.s.dim, disc |-> ev.s.disc, H |-> {ev.s.H[k] : k \in DOMAIN ev.s.H}]
(* out: classes of the exception raised, none when the call answered *)
Read == LET v == Verdict(Session, ev.c)
            kinds == {ev.out[k] : k \in DOMAIN ev.out}
        IN /\ v.v = "accept" => Clause("a valid call is accepted", kinds = {})
           /\ v.v = "reject" => /\ Clause("an invalid call is rejected", kinds # {})
                                /\ Clause("the exception is of the documented kind", kinds = {} \/ kinds \cap v.kinds # {})
           /\ Clause("the answer is about what was asked", ev.right)
           /\ Clause("the objects answer as before", ev.usable)
Done == i = Len(Trace) => Emit("DONE", i)
TInit == i = 1
TNext == i <= Len(Trace) /\ Read /\ i' = i + 1 /\ Done
TSpec == TInit /\ [][TNext]_i
=============================================================================
