---------------------------- MODULE RewriteTrace -----------------------------
(* Validates the answers of rewritten descriptions against Rewrite: whatever *)
(* the description, the observation belongs to its normal form.              *)
EXTENDS Rewrite, Emit, IOUtils
CONSTANT Tol
VARIABLES i, ref
tvars == <<vars, i, ref>>
Trace == ndJsonDeserialize(IOEnv.TRACE_DIR \o "/trace.ndjson")
ev == Trace[i]
Is(name) == i <= Len(Trace) /\ ev.ev = name
Bad(clause) == Emit("BAD", [line |-> i, clause |-> clause])
Clause(name, ok) == IF ok THEN TRUE ELSE Bad(name)
Abs(x) == IF x < 0 THEN -x ELSE x
Near(a, b) == Abs(a - b) <= Tol
NearSeq(a, b) == Len(a) = Len(b) /\ \A n \in DOMAIN a : Near(a[n], b[n])
At(o, h) == o[CHOOSE n \in DOMAIN o : o[n].h = h]
Hs(o) == {o[n].h : n \in DOMAIN o}
Agree(a, b) == \A h \in Hs(a) \cap Hs(b) :
  /\ Clause("efficiencies of the orders", Near(At(a, h).R, At(b, h).R) /\ Near(At(a, h).T, At(b, h).T))
  /\ Clause("complex coefficients of the orders", NearSeq(At(a, h).r, At(b, h).r) /\ NearSeq(At(a, h).t, At(b, h).t))
(* orders one description does not retain carry nothing *)
Dark(a, b) == \A h \in Hs(a) \ Hs(b) : Clause("orders not retained carry no power", Near(At(a, h).R, 0) /\ Near(At(a, h).T, 0))
Structure == /\ Is("structure")
             /\ stack' = ev.stack /\ orig' = ev.stack /\ outer' = ev.outer /\ names' = 0 /\ steps' = 0
             /\ ref' = ev.obs
             /\ Clause("no answer", ev.err = "")
Describe == /\ Is("describe")
            /\ NF(ev.stack) = NF(orig)
            /\ stack' = ev.stack /\ outer' = ev.outer /\ names' = ev.names /\ steps' = steps + 1
            /\ IF ev.err # "" THEN Bad("no answer")
               ELSE /\ Agree(ev.obs, ref) /\ Dark(ev.obs, ref) /\ Dark(ref, ev.obs)
                    /\ Clause("total efficiencies", Near(ev.sum[1], ev.sum0[1]) /\ Near(ev.sum[2], ev.sum0[2]))
            /\ UNCHANGED <<orig, ref>>
Done == i = Len(Trace) => Emit("DONE", i)
TInit == i = 1 /\ stack = <<>> /\ orig = <<>> /\ outer = <<0, 0>> /\ names = 0 /\ steps = 0 /\ ref = <<>>
TNext == /\ i <= Len(Trace) /\ (Structure \/ Describe) /\ i' = i + 1 /\ Done
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
