------------------------------ MODULE ParTrace -------------------------------
(* Validates recorded loops: one row a loop, with the log of its calls.      *)
EXTENDS Integers, Sequences, FiniteSets, Emit, IOUtils, Json
VARIABLES i
Trace == ndJsonDeserialize(IOEnv.TRACE_DIR \o "/trace.ndjson")
ev == Trace[i]
Bad(clause) == Emit("BAD", [line |-> i, clause |-> clause])
Clause(name, ok) == IF ok THEN TRUE ELSE Bad(name)
Count(q, v) == Cardinality({k \in DOMAIN q : q[k] = v})
Rng(q) == {q[k] : k \in DOMAIN q}
(* what the sequential call returns for an argument *)
Value(v) == v * v + 10 * ev.a + 1000 * ev.b
Want == [k \in DOMAIN ev.args |-> Value(ev.args[k])]
Loop == LET fail == \E k \in DOMAIN ev.args : ev.args[k] \in Rng(ev.fails)
        IN /\ Clause("the loop ends", ev.outcome # "stuck")
           /\ Clause("the loop returns or raises as the sequential calls do", ev.outcome = (IF fail THEN "exception" ELSE "results"))
           /\ IF ev.outcome = "results"
              THEN /\ Clause("results of the sequential calls, in the order of the arguments", ev.res = Want)
                   /\ Clause("each argument is evaluated exactly once", \A v \in Rng(ev.args) \cup Rng(ev.starts) : Count(ev.starts, v) = Count(ev.args, v))
              ELSE /\ Clause("no argument is evaluated twice", \A v \in Rng(ev.starts) : Count(ev.starts, v) <= Count(ev.args, v))
                   /\ ev.outcome = "exception" => Clause("the exception is that of a failing task", ev.exc \in Rng(ev.fails) /\ ev.exc \in Rng(ev.starts))
           /\ Clause("extra arguments reach the tasks unchanged", \A k \in DOMAIN ev.extras : ev.extras[k] = <<ev.a, ev.b>>)
Done == i = Len(Trace) => Emit("DONE", i)
TInit == i = 1
TNext == i <= Len(Trace) /\ Loop /\ i' = i + 1 /\ Done
TSpec == TInit /\ [][TNext]_i
=============================================================================
