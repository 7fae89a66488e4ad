---------------------------- MODULE SMatrixTrace ----------------------------
(* Validates recorded scattering matrices against SMatrix.                   *)
EXTENDS SMatrix, Emit, IOUtils
CONSTANT Tol
VARIABLE i
tvars == <<vars, i>>
Trace == ndJsonDeserialize(IOEnv.TRACE_DIR \o "/trace.ndjson")
ev == Trace[i]
Is(name) == i <= Len(Trace) /\ ev.ev = name
Bad(clause) == Emit("BAD", [line |-> i, clause |-> clause])
Clause(name, ok) == IF ok THEN TRUE ELSE Bad(name)
K == 7
FixC(z) == << Fix(z[1], z[3], K), Fix(z[2], z[3], K) >>
NearC(z, o) == LET f == FixC(z) IN Near(f[1], o[1], Tol) /\ Near(f[2], o[2], Tol)
Begin == /\ Is("begin") /\ kap' = ev.kap /\ stack' = <<>> /\ S' = [p \in Pols |-> <<>>]
LayerEv == Is("layer") /\ AddLayer(ev.q, ev.m)
(* a range of layers a..b asked to the real simulation; ev.S[pol] *)
RangeEv ==
  /\ Is("range")
  /\ IF ev.err # "" THEN Bad("no answer")
     ELSE \A p \in Pols :
       LET M == S[p][ev.a][ev.b] IN
         Clause(IF ev.a = ev.b THEN "empty range is the identity" ELSE "exact matrix of the range",
           NearC(M.s11, ev.S[p][1]) /\ NearC(M.s12, ev.S[p][2]) /\ NearC(M.s21, ev.S[p][3]) /\ NearC(M.s22, ev.S[p][4]))
  /\ UNCHANGED vars
(* matrices of any (patterned) stack: the products are formed by the driver  *)
CutEv ==
  /\ Is("cut")
  /\ IF ev.err # "" THEN Bad("no answer")
     ELSE /\ Clause("composition", ev.off <= Tol)
          /\ Clause("finite", ev.size > 0 /\ ev.size < 1000000000)
  /\ UNCHANGED vars
WholeEv ==
  /\ Is("whole")
  /\ IF ev.err # "" THEN Bad("no answer")
     ELSE /\ Clause("whole matrix however it is asked for", ev.same <= Tol)
          /\ Clause("efficiencies from the matrix", Near(ev.R, ev.sR, Tol) /\ Near(ev.T, ev.sT, Tol))
          /\ Clause("empty range is the identity", ev.id <= Tol)
          /\ (ev.lossless = 1 => Clause("energy of combined waves", ev.unit <= Tol))
  /\ UNCHANGED vars
Done == i = Len(Trace) => Emit("DONE", i)
TInit == i = 1 /\ kap = <<0, 1>> /\ stack = <<>> /\ S = [p \in Pols |-> <<>>]
TNext == /\ i <= Len(Trace) /\ (Begin \/ LayerEv \/ RangeEv \/ CutEv \/ WholeEv) /\ i' = i + 1 /\ Done
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
