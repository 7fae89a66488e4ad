----------------------------- MODULE FlowTrace -------------------------------
(* Validates recorded powers and fluxes against Flow (fixed point 1e-7 of    *)
(* the incident power).                                                      *)
EXTENDS Flow, Emit, IOUtils
CONSTANT Tol
VARIABLE i
tvars == <<vars, i>>
Trace == ndJsonDeserialize(IOEnv.TRACE_DIR \o "/trace.ndjson")
ev == Trace[i]
Is(name) == i <= Len(Trace) /\ ev.ev = name
Bad(clause) == Emit("BAD", [line |-> i, clause |-> clause])
Clause(name, ok) == IF ok THEN TRUE ELSE Bad(name)
Abs(x) == IF x < 0 THEN -x ELSE x
Near(a, b, tol) == Abs(a - b) <= tol
One == 10000000
Begin == /\ Is("begin")
         /\ R' = ev.R /\ flux' = One - ev.R /\ taken' = <<>> /\ kinds' = <<>> /\ done' = FALSE /\ T' = ev.T
         /\ IF ev.err # "" THEN Bad("no answer")
            ELSE Clause("powers are between none and all", ev.R >= -Tol /\ ev.R <= One + Tol /\ ev.T >= -Tol /\ ev.T <= One + Tol)
(* fluxes at increasing depths of a layer, and what its material takes       *)
Layer == /\ Is("layer")
         /\ LET n == Len(ev.flux)
                top == ev.flux[1]
                bot == ev.flux[n]
            IN /\ Clause("the flux passes interfaces unchanged", Near(top, flux, Tol))
               /\ IF ev.lossy = 0
                  THEN Clause("lossless layers keep the flux", \A k \in 1..n : Near(ev.flux[k], top, Tol))
                  ELSE /\ Clause("the flux never increases with depth", \A k \in 1..(n - 1) : ev.flux[k + 1] <= ev.flux[k] + Tol)
                       /\ Clause("absorbing layers take the missing flux", ev.quad = 0 \/ Near(top - bot, ev.taken, Tol + ev.taken \div 100000))
               /\ Clause("the flux of the modes is the flux of the fields", \A k \in DOMAIN ev.own : Near(ev.own[k], ev.flux[k], Tol))
               /\ flux' = bot /\ taken' = Append(taken, IF ev.lossy = 0 THEN 0 ELSE ev.taken) /\ kinds' = Append(kinds, ev.lossy = 1)
         /\ UNCHANGED <<R, done, T>>
End == /\ Is("end") /\ done' = TRUE
       /\ LET lossless == \A n \in DOMAIN kinds : ~kinds[n]
              A == Sum(taken, Len(taken))
          IN /\ Clause("transmitted power is the flux entering the substrate", ev.sub = 1 \/ Near(flux, T, Tol))
             /\ (lossless => Clause("reflected and transmitted powers sum to one", Near(R + T, One, Tol)))
             /\ (~lossless => Clause("with absorption less than everything comes out", R + T <= One + Tol))
             /\ (ev.quad = 1 => Clause("what is missing is absorbed", Near(R + T + A, One, 2 * Tol + A \div 100000)))
       /\ UNCHANGED <<R, flux, taken, kinds, T>>
Done == i = Len(Trace) => Emit("DONE", i)
TInit == i = 1 /\ R = 0 /\ flux = 0 /\ taken = <<>> /\ kinds = <<>> /\ done = FALSE /\ T = 0
TNext == /\ i <= Len(Trace) /\ (Begin \/ Layer \/ End) /\ i' = i + 1 /\ Done
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
