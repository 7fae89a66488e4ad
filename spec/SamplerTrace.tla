---------------------------- MODULE SamplerTrace -----------------------------
(* Validates recorded samplings call by call.                                *)
EXTENDS Sampler, Emit, IOUtils, Json
VARIABLES i, first, off
tvars == <<vars, i, first, off>>
Trace == ndJsonDeserialize(IOEnv.TRACE_DIR \o "/trace.ndjson")
ev == Trace[i]
Bad(clause) == Emit("BAD", [line |-> i, clause |-> clause])
Clause(name, ok) == IF ok THEN TRUE ELSE Bad(name)
Is(e) == i <= Len(Trace) /\ ev.ev = e /\ i' = i + 1
(* rounds happen between the calls *)
Quiet == ~off /\ status = "sampling" /\ pending = {}
Start == /\ Is("start") /\ ~Quiet
         /\ par' = ev.par /\ pending' = Range(ev.first) /\ first' = Range(ev.first) /\ xs' = <<>> /\ val' = <<>> /\ status' = "sampling" /\ off' = FALSE
Settle == /\ Quiet /\ i <= Len(Trace) /\ (Decide \/ Round) /\ UNCHANGED <<i, first, off>>
Call == /\ Is("call") /\ ~Quiet
        /\ IF off \/ status = "tie" THEN UNCHANGED <<vars, off>>
           ELSE IF ev.x \in pending THEN Eval(ev.x, ev.y) /\ UNCHANGED off
           ELSE /\ Bad(IF ev.x \in DOMAIN val THEN "no point is evaluated twice" ELSE "a point is added only in the middle of the longer segment of a bent triple")
                /\ off' = TRUE /\ UNCHANGED vars
        /\ UNCHANGED first
Seen == {ev.calls[k][1] : k \in DOMAIN ev.calls}
ValueOf(x) == ev.calls[CHOOSE k \in DOMAIN ev.calls : ev.calls[k][1] = x][2]
End == /\ Is("end") /\ ~Quiet
       /\ IF ev.err # "" THEN Bad("no answer")
          ELSE /\ Clause("abscissas are sorted and distinct", \A k \in 1..(Len(ev.xs) - 1) : ev.xs[k] < ev.xs[k + 1])
               /\ Clause("the initial points are kept", first \subseteq Range(ev.xs))
               /\ Clause("each point was evaluated exactly once", Len(ev.calls) = Len(ev.xs) /\ Range(ev.xs) = Seen)
               /\ Clause("values belong to their abscissas", Len(ev.ys) = Len(ev.xs) /\ \A k \in DOMAIN ev.xs : ev.xs[k] \in Seen => ev.ys[k] = ValueOf(ev.xs[k]))
               /\ off \/ status = "tie" \/ Clause("sampling stops exactly when no triple bends too much", status = "done")
       /\ off' = TRUE /\ UNCHANGED <<vars, first>>
Done == i' = Len(Trace) + 1 => Emit("DONE", i)
TInit == i = 1 /\ xs = <<>> /\ val = <<>> /\ pending = {} /\ par = [bend |-> 60, relx |-> 0, df |-> 0] /\ status = "done" /\ first = {} /\ off = TRUE
TNext == (Settle \/ Start \/ Call \/ End) /\ (i' # i => Done)
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
