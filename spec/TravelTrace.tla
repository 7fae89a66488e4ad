----------------------------- MODULE TravelTrace -----------------------------
(* Validates recorded histories of duplicated simulations: after every step   *)
(* the answer is that of a new simulation of what the group was set to.       *)
EXTENDS Travel, Emit, IOUtils, Json
VARIABLES i, off
tvars == <<vars, i, off>>
Trace == ndJsonDeserialize(IOEnv.TRACE_DIR \o "/trace.ndjson")
ev == Trace[i]
Bad(clause) == Emit("BAD", [line |-> i, clause |-> clause])
Clause(name, ok) == IF ok THEN TRUE ELSE Bad(name)
Range(s) == {s[k] : k \in DOMAIN s}
Is(e) == i <= Len(Trace) /\ ev.ev = e /\ i' = i + 1
Live(e) == Is(e) /\ ~off
Broken(clause) == /\ Bad(clause) /\ off' = TRUE /\ UNCHANGED vars
Begin == /\ Is("begin") /\ off' = FALSE
         /\ grp' = [g \in Slots |-> Dead] /\ heap' = [c \in Cells |-> 0] /\ memo' = [p \in Slots \X Sims |-> None] /\ last' = None
Skip == i <= Len(Trace) /\ off /\ ev.ev # "begin" /\ i' = i + 1 /\ UNCHANGED <<vars, off>>
B == Live("build") /\ IF ev.err # "" THEN Broken("no simulation") ELSE Build(ev.g, Range(ev.sims)) /\ UNCHANGED off
S == Live("set") /\ IF ev.err # "" THEN Broken("the layer cannot be changed") ELSE Set(ev.g, ev.l, ev.v) /\ UNCHANGED off
D == Live("dup") /\ IF ev.err # "" THEN Broken("no duplicate") ELSE Dup(ev.g, ev.h, Range(ev.sims), ev.kind) /\ UNCHANGED off
X == Live("drop") /\ Drop(ev.g) /\ UNCHANGED off
A == Live("ask") /\ IF ev.err # "" THEN Broken("no answer")
                    ELSE /\ Ask(ev.g, ev.s)
                         /\ Clause("a duplicate holds the layers of its own", ev.held = [k \in 1..Cardinality(Layers) |-> grp[ev.g].own[k]])
                         /\ Clause("an answer is that of a new simulation of what was set", \E k \in DOMAIN ev.match : ev.match[k] = [n \in 1..Cardinality(Layers) |-> grp[ev.g].own[n]])
                         /\ UNCHANGED off
Done == i' = Len(Trace) + 1 => Emit("DONE", i)
TInit == Init /\ i = 1 /\ off = TRUE
TNext == (Begin \/ Skip \/ B \/ S \/ D \/ X \/ A) /\ Done
TSpec == TInit /\ [][TNext]_tvars
==============================================================================
