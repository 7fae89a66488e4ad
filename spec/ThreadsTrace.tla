----------------------------- MODULE ThreadsTrace -----------------------------
(* Runs of real threads: the slices that were executed (thousandths of the   *)
(* lines of each task), then the answer of each task and what it answered    *)
(* alone.  n: number of tasks.                                               *)
EXTENDS Integers, Sequences, Emit, IOUtils
CONSTANT Tol
VARIABLES i, n, at, cur
tvars == <<i, n, at, cur>>
Trace == ndJsonDeserialize(IOEnv.TRACE_DIR \o "/trace.ndjson")
ev == Trace[i]
Is(name) == i <= Len(Trace) /\ ev.ev = name
Bad(clause) == Emit("BAD", [line |-> i, clause |-> clause])
Clause(name, ok) == IF ok THEN TRUE ELSE Bad(name)
Abs(x) == IF x < 0 THEN -x ELSE x
Near(a, b) == Abs(a - b) <= Tol + (Abs(a) \div 1000000)
Begin == Is("begin") /\ n' = ev.n /\ at' = [t \in 1..ev.n |-> 0] /\ cur' = 0 /\ Clause("no answer", ev.err = "")
(* a task goes on from where it was; somebody else had the turn before *)
Slice == /\ Is("slice") /\ Clause("one thread at a time", ev.t # cur /\ ev.to >= at[ev.t])
         /\ at' = [at EXCEPT ![ev.t] = ev.to] /\ cur' = ev.t /\ UNCHANGED n
Answer == /\ Is("answer")
          /\ Clause("a task fails among others", ev.err = "")
          /\ Clause("a task answers what it answers alone", ev.err # "" \/ (Len(ev.got) = Len(ev.alone) /\ \A k \in DOMAIN ev.got : Near(ev.got[k], ev.alone[k])))
          /\ UNCHANGED <<n, at, cur>>
Done == i = Len(Trace) => Emit("DONE", i)
TInit == i = 1 /\ n = 0 /\ at = <<>> /\ cur = 0
TNext == /\ i <= Len(Trace) /\ (Begin \/ Slice \/ Answer) /\ i' = i + 1 /\ Done
TSpec == TInit /\ [][TNext]_tvars
==============================================================================
