---------------------------- MODULE RasterTrace ------------------------------
(* Validates recorded masks point by point.                                  *)
EXTENDS Raster, Emit, IOUtils, Json
VARIABLES i
Trace == ndJsonDeserialize(IOEnv.TRACE_DIR \o "/trace.ndjson")
ev == Trace[i]
Bad(clause) == Emit("BAD", [line |-> i, clause |-> clause])
Clause(name, ok) == IF ok THEN TRUE ELSE Bad(name)
Right(v, b) == v = "any" \/ (v = "in") = (b = 1)
Mask == IF ev.err # "" THEN Bad("no mask")
        ELSE IF Len(ev.mask) # ev.N[1] \/ \E a \in DOMAIN ev.mask : Len(ev.mask[a]) # ev.N[2] THEN Bad("the mask has the points of the grid")
        ELSE LET D == Den(ev.N)
             IN /\ Clause("the grid holds the points of the cell", \A k \in DOMAIN ev.grid :
                     LET q == ev.grid[k]
                         x == Point(ev.u, ev.N, q[1] - 1, q[2] - 1)
                     IN Abs(q[3] - 1000 * x[1]) <= 1 /\ Abs(q[4] - 1000 * x[2]) <= 1)
                /\ Clause("the mask tells the points inside the shape",
                  \A a \in 1..ev.N[1], b \in 1..ev.N[2] : Right(Verdict(ev.s, D, Point(ev.u, ev.N, a - 1, b - 1)), ev.mask[a][b]))
Done == i = Len(Trace) => Emit("DONE", i)
TInit == i = 1
TNext == i <= Len(Trace) /\ Mask /\ i' = i + 1 /\ Done
TSpec == TInit /\ [][TNext]_i
=============================================================================
