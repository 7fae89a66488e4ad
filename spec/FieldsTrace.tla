---------------------------- MODULE FieldsTrace -----------------------------
(* Validates recorded answers of the field accessors against Fields (fixed   *)
(* point numbers, so that sums are exact up to the rounding of their terms). *)
EXTENDS Fields, Emit, IOUtils
CONSTANT Tol
VARIABLES i, hs
tvars == <<vars, i, hs>>
Trace == ndJsonDeserialize(IOEnv.TRACE_DIR \o "/trace.ndjson")
ev == Trace[i]
Is(name) == i <= Len(Trace) /\ ev.ev = name
Bad(clause) == Emit("BAD", [line |-> i, clause |-> clause])
Clause(name, ok) == IF ok THEN TRUE ELSE Bad(name)
Abs(x) == IF x < 0 THEN -x ELSE x
NearZ(a, b, tol) == Abs(a[1] - b[1]) <= tol /\ Abs(a[2] - b[2]) <= tol
Big == 200000000
(* the table of a layer, from fresh simulations asked depth by depth         *)
TableEv ==
  /\ Is("table")
  /\ u' = ev.u /\ hs' = ev.hs /\ req' = NoReq /\ ans' = <<>>
  /\ IF ev.err # "" THEN Bad("no answer")
     ELSE Clause("values are finite", \A k \in DOMAIN ev.u : \A f \in Fld : \A c \in 1..3 : \A n \in DOMAIN ev.hs : Abs(ev.u[k][f][c][n][1]) < Big /\ Abs(ev.u[k][f][c][n][2]) < Big)
(* the same shape and, leaf by leaf, the same values                         *)
Same5(a, b, tol) ==
  /\ Len(a) = Len(b)
  /\ \A f \in DOMAIN a :
     /\ Len(a[f]) = Len(b[f])
     /\ \A c \in DOMAIN a[f] :
        /\ Len(a[f][c]) = Len(b[f][c])
        /\ \A x \in DOMAIN a[f][c] :
           /\ Len(a[f][c][x]) = Len(b[f][c][x])
           /\ \A y \in DOMAIN a[f][c][x] :
              /\ Len(a[f][c][x][y]) = Len(b[f][c][x][y])
              /\ \A k \in DOMAIN a[f][c][x][y] : NearZ(a[f][c][x][y][k], b[f][c][x][y][k], tol)
SameT(a, b, tol) ==
  /\ Len(a) = Len(b)
  /\ \A k \in DOMAIN a : \A f \in Fld : \A c \in 1..3 :
       /\ Len(a[k][f][c]) = Len(b[k][f][c])
       /\ \A n \in DOMAIN a[k][f][c] : NearZ(a[k][f][c][n], b[k][f][c][n], tol)
AskEv ==
  /\ Is("ask")
  /\ req' = ev.req /\ UNCHANGED <<u, hs, ans>>
  /\ IF ev.err # "" THEN Bad("no answer")
     ELSE IF ev.req.grid = <<0, 0>> THEN Clause("Fourier amplitudes at the depths asked", SameT(ev.val, View(ev.req, u, hs), 3))
     ELSE Clause("values on the grid are the Fourier sum of the amplitudes", Same5(ev.val, View(ev.req, u, hs), Tol))
(* grids of any shape: the driver forms the plain sums                       *)
PlainEv ==
  /\ Is("plain")
  /\ IF ev.err # "" THEN Bad("no answer")
     ELSE /\ Clause("shape of the answer", ev.shape = ev.want)
          /\ Clause("values on the grid are the Fourier sum of the amplitudes", Abs(ev.off) <= Tol)
  /\ UNCHANGED <<vars, hs>>
Done == i = Len(Trace) => Emit("DONE", i)
TInit == i = 1 /\ u = <<>> /\ hs = <<>> /\ req = NoReq /\ ans = <<>>
TNext == /\ i <= Len(Trace) /\ (TableEv \/ AskEv \/ PlainEv) /\ i' = i + 1 /\ Done
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
