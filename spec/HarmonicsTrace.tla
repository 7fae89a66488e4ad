--------------------------- MODULE HarmonicsTrace ---------------------------
(* Validates recorded choices of harmonics and powers of orders.             *)
EXTENDS Harmonics, Emit, IOUtils
GR == INSTANCE GaussRat
CONSTANT Tol
VARIABLE i
tvars == <<vars, i>>
Trace == ndJsonDeserialize(IOEnv.TRACE_DIR \o "/trace.ndjson")
ev == Trace[i]
Is(name) == i <= Len(Trace) /\ ev.ev = name
Bad(clause) == Emit("BAD", [line |-> i, clause |-> clause])
Clause(name, ok) == IF ok THEN TRUE ELSE Bad(name)
Set(seq) == {seq[n] : n \in DOMAIN seq}
Distinct(seq) == Cardinality(Set(seq)) = Len(seq)

(* lattice.get_harmonics / Simulation.harmonics for a request *)
Harm ==
  /\ Is("harm")
  /\ basis' = ev.basis /\ kind' = ev.kind /\ nh' = ev.nh /\ chosen' = Set(ev.list)
  /\ IF ev.err # "" THEN Bad("no answer")
     ELSE /\ Clause("harmonics are distinct", Distinct(ev.list))
          /\ Clause("number reported", ev.n = Len(ev.list))
          /\ IF ev.kind = "explicit" THEN Clause("explicit harmonics used as given", Set(ev.list) = Set(ev.given) /\ Len(ev.list) = Len(ev.given))
             ELSE /\ Clause("contains the zeroth order", Zeroth \in Set(ev.list))
                  /\ Clause("never more than requested", Len(ev.list) <= ev.nh)
                  /\ Clause("documented truncation", Allowed(ev.basis, ev.kind, ev.nh, Set(ev.list)))
(* building a simulation on a discretization *)
Disc ==
  /\ Is("disc")
  /\ Clause("discretization", (ev.outcome = "ok") = Resolved(ev.kind, Set(ev.list), ev.disc))
  /\ Clause("kind of rejection", ev.outcome \in {"ok", "ValueError"})
  /\ (ev.outcome = "ok" => Clause("harmonics of the simulation", Set(ev.simlist) = Set(ev.list) /\ Len(ev.simlist) = Len(ev.list) /\ ev.simnh = Len(ev.list)))
  /\ UNCHANGED vars
(* powers of the orders of a scene *)
Orders ==
  /\ Is("orders")
  /\ basis' = ev.basis /\ kind' = "none" /\ nh' = 0 /\ chosen' = Set(ev.list)
  /\ IF ev.err # "" THEN Bad("no answer")
     ELSE
     /\ \A n \in DOMAIN ev.list :
          LET h == ev.list[n]
              p0 == Propagates(ev.basis, ev.s, ev.q, ev.kin, h, ev.eps[1])
              p1 == Propagates(ev.basis, ev.s, ev.q, ev.kin, h, ev.eps[2])
          IN /\ (~p0 => Clause("no power in evanescent reflected orders", GR!Near(ev.R[n], 0, Tol)))
             /\ (~p1 => Clause("no power in evanescent transmitted orders", GR!Near(ev.T[n], 0, Tol)))
             /\ Clause("powers are not negative", ev.R[n] >= -Tol /\ ev.T[n] >= -Tol)
             /\ Clause("transmitted order oscillates or decays", ev.grow[n] \in {2, IF p1 THEN 0 ELSE -1})
             (* normal wavenumber squared of the transmitted order, measured on its field, in 1e-4 *)
             /\ (ev.gam[n] # 1000000000 =>
                  Clause("wavenumber of the order", LET g == Gam(ev.basis, ev.s, ev.q, ev.kin, h, ev.eps[2])
                                                    IN GR!Near(ev.gam[n], GR!Fix(g, GamDen(ev.basis, ev.q, ev.eps[2]), 4), 5)))
     /\ Clause("total power", GR!Near(ev.total, 10000000, Tol))
Done == i = Len(Trace) => Emit("DONE", i)
TInit == i = 1 /\ basis = <<1, 0, 0, 1>> /\ kind = "none" /\ nh = 0 /\ chosen = {}
TNext == /\ i <= Len(Trace) /\ (Harm \/ Disc \/ Orders) /\ i' = i + 1 /\ Done
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
