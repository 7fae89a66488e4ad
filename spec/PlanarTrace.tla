---------------------------- MODULE PlanarTrace ----------------------------
(* Validates recorded computations of planar stacks against Planar.          *)
EXTENDS Planar, Emit, IOUtils
CONSTANT Tol
VARIABLE i
tvars == <<vars, i>>
Trace == ndJsonDeserialize(IOEnv.TRACE_DIR \o "/trace.ndjson")
K == 7
ev == Trace[i]
Is(name) == i <= Len(Trace) /\ ev.ev = name
Bad(clause) == Emit("BAD", [line |-> i, clause |-> clause])
Clause(name, ok) == IF ok THEN TRUE ELSE Bad(name)

TInit == /\ i = 1 /\ kap = <<0, 1>> /\ sub = One /\ stack = <<>> /\ sel = 0
         /\ Y = [p \in Pols |-> One] /\ E2 = [p \in Pols |-> <<One>>] /\ dY = [p \in Pols |-> Zero]

Medium == /\ Is("medium")
          /\ kap' = ev.kap /\ sub' = ev.sub /\ stack' = <<>> /\ sel' = 0
          /\ Y' = [p \in Pols |-> Eta(p, ev.kap, ev.sub)]
          /\ E2' = [p \in Pols |-> <<One>>] /\ dY' = [p \in Pols |-> Zero]
LayerEv == /\ Is("layer") /\ AddLayer(ev.q, ev.m, ev.sel = 1)

FixR(p, q0) == FixPos(N2(RN(p, q0)), N2(RD(p, q0)), K)
FixT(p, q0) == FixPos(TN(p, q0), N2(RD(p, q0)), K)
(* weights: quarters of p and s power *)
Mix(a, b) == (ev.w[1] * a) \div 4 + (ev.w[2] * b) \div 4
FixC(z) == << Fix(z[1], z[3], K), Fix(z[2], z[3], K) >>
NearC(z, o) == LET f == FixC(z) IN Near(f[1], o[1], Tol) /\ Near(f[2], o[2], Tol)
Pol == IF ev.w[1] = 4 THEN "p" ELSE "s"
Pure == ev.w[1] \in {0, 4}
Measure ==
  /\ Is("measure")
  /\ IF ev.err # "" THEN Bad("no answer")
     ELSE /\ Clause("reflectance", Near(ev.R, Mix(FixR("p", ev.q0), FixR("s", ev.q0)), Tol))
          /\ Clause("transmittance", Near(ev.T, Mix(FixT("p", ev.q0), FixT("s", ev.q0)), Tol))
          /\ (Pure => Clause("reflection coefficient", NearC(Refl(Pol, ev.q0), ev.r)))
          /\ (Pure => \A j \in 1..Len(stack) :
                Clause("field at interfaces",
                       LET g == E2[Pol][j + 1] IN Near(ev.gain[j], FixPos(g[1], g[3], 5), Tol + (2 * (g[1] \div g[3])))))
   /\ UNCHANGED vars
Abs(x) == IF x < 0 THEN -x ELSE x
DRMix == LET a == Fix(DR("p", ev.q0)[1], DR("p", ev.q0)[3], 6)
             b == Fix(DR("s", ev.q0)[1], DR("s", ev.q0)[3], 6)
         IN Mix(a, b)
(* derivatives with the phase thickness of the selected layer, in units of 1e-6 *)
Slope ==
  /\ Is("slope")
  /\ IF ev.err # "" THEN Bad("no gradient")
     ELSE /\ Clause("derivative of the reflectance", Near(ev.grad, DRMix, Tol + Abs(DRMix) \div 10000))
          (* what is not reflected is transmitted *)
          /\ Clause("derivative of the transmittance", Near(ev.gradT, IF sub[1] = 0 THEN 0 ELSE -DRMix, Tol + Abs(DRMix) \div 10000))
  /\ UNCHANGED vars
Done == i = Len(Trace) => Emit("DONE", i)
TNext == /\ i <= Len(Trace) /\ (Medium \/ LayerEv \/ Measure \/ Slope) /\ i' = i + 1 /\ Done
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
