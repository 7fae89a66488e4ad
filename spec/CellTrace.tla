------------------------------ MODULE CellTrace -------------------------------
(* What lattices answer about their cell, with any backend and precision     *)
(* (fixed point 1e-5).                                                       *)
EXTENDS Integers, Sequences, Emit, IOUtils
CONSTANTS MaxEntry, MaxSteps, Dens
VARIABLES i, b, den, cells, turns, steps
tvars == <<i, b, den, cells, turns, steps>>
INSTANCE Cell
Trace == ndJsonDeserialize(IOEnv.TRACE_DIR \o "/trace.ndjson")
ev == Trace[i]
Is(name) == i <= Len(Trace) /\ ev.ev = name
Bad(clause) == Emit("BAD", [line |-> i, clause |-> clause])
Clause(name, ok) == IF ok THEN TRUE ELSE Bad(name)
One == 100000
Tol(x) == IF ev.bits = 64 THEN 1 + Abs(x) \div 1000000 ELSE 4 + Abs(x) \div 50000
Near(x, y) == Abs(x - y) <= Tol(y)
(* x One / q, rounded down; x up to 2000 or so *)
Frac(x, q) == (x * One) \div q
B == ev.b
N == ev.n
P == IF N[1] = 1 THEN 1 ELSE N[1] - 1
Q == IF N[2] = 1 THEN 1 ELSE N[2] - 1
Points == (0..(N[1] - 1)) \X (0..(N[2] - 1))
(* does the stripe of centre ev.c / ev.q and width ev.w / ev.q hold the abscissa x / d? *)
Inside(x, d) == LET l == Abs(2 * (x * ev.q - ev.c * d)) r == ev.w * d
                IN IF l < r THEN 1 ELSE IF l > r THEN 0 ELSE -1
Lattice ==
  /\ Is("lattice")
  /\ IF ev.err # "" THEN Bad("no answer")
     ELSE IF ev.dims # [k \in 1..3 |-> <<2, N[1], N[2]>>] THEN Bad("sides of the grids")
     ELSE /\ Clause("area of the cell", Near(ev.area, IF ev.one = 1 THEN Frac(B[1][1], ev.den) ELSE Frac(Abs(Det(B)), ev.den * ev.den)))
          /\ Clause("basis vectors are the columns of the matrix", \A r, k \in 1..2 : Near(ev.matrix[r][k], Frac(B[k][r], IF ev.one = 1 /\ k = 2 THEN 1 ELSE ev.den)))
          /\ Clause("reciprocal vectors are the dual basis",
                    ev.one = 1 \/ \A r, k \in 1..2 : Near(ev.reciprocal[r][k], Frac(ev.den * Dual(B)[k][r], Det(B))))
          /\ Clause("grid of the unit square", \A p \in Points : Near(ev.unit[1][p[1] + 1][p[2] + 1], Frac(p[1], P)) /\ Near(ev.unit[2][p[1] + 1][p[2] + 1], Frac(p[2], Q)))
          /\ Clause("grid of the cell", \A p \in Points : LET a == At(B, N, p[1], p[2]) d == ev.den * P * Q IN
                      Near(ev.grid[1][p[1] + 1][p[2] + 1], Frac(a[1], d)) /\ Near(ev.grid[2][p[1] + 1][p[2] + 1], IF ev.one = 1 THEN 0 ELSE Frac(a[2], d)))
          /\ Clause("lattice coordinates transform linearly", \A k \in DOMAIN ev.pts : \A c \in 1..2 : LET x == Frac(ev.pts[k][1] * B[1][c] + ev.pts[k][2] * B[2][c], ev.den * 4) IN
                      \A t \in 1..2 : Near(ev.moved[t][c][k], x))
          /\ Clause("uniform arrays", /\ ev.shapes = <<N, N, N>>
                                      /\ \A k \in DOMAIN ev.flat[1] : ev.flat[1][k] = One /\ ev.flat[2][k] = 0 /\ ev.flat[3][k] = 2 * One /\ ev.flat[4][k] = -One)
          /\ Clause("stripe", \A p \in Points : LET v == Inside(At(B, N, p[1], p[2])[1], ev.den * P * Q) IN v = -1 \/ ev.stripe[p[1] + 1][p[2] + 1] = v)
          /\ Clause("backend", ev.kind = ev.want)
  /\ UNCHANGED <<b, den, cells, turns, steps>>
Done == i = Len(Trace) => Emit("DONE", i)
TInit == i = 1 /\ b = <<>> /\ den = 1 /\ cells = 1 /\ turns = 0 /\ steps = 0
TNext == /\ i <= Len(Trace) /\ Lattice /\ i' = i + 1 /\ Done
TSpec == TInit /\ [][TNext]_tvars
==============================================================================
