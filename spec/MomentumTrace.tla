--------------------------- MODULE MomentumTrace -----------------------------
(* Validates stress integrals against the ledger of Momentum (fixed point    *)
(* 1e-6; powers in units of the incident one, momenta of unit power).        *)
EXTENDS Integers, Sequences, Emit, IOUtils
CONSTANT Tol
VARIABLES i, p, last, force, inp, outp
tvars == <<i, p, last, force, inp, outp>>
Trace == ndJsonDeserialize(IOEnv.TRACE_DIR \o "/trace.ndjson")
ev == Trace[i]
Is(name) == i <= Len(Trace) /\ ev.ev = name
Bad(clause) == Emit("BAD", [line |-> i, clause |-> clause])
Clause(name, ok) == IF ok THEN TRUE ELSE Bad(name)
Abs(x) == IF x < 0 THEN -x ELSE x
Near(a, b, tol) == Abs(a - b) <= tol
One == 1000000
(* product of fixed point numbers, without overflow up to 40 or so *)
MulP(a, b) == LET a1 == a \div 1000  a0 == a % 1000  b1 == b \div 1000  b0 == b % 1000
              IN a1 * b1 + (a1 * b0 + a0 * b1) \div 1000 + (a0 * b0) \div 1000000
Mul(a, b) == LET s == MulP(Abs(a), Abs(b)) IN IF (a < 0) = (b < 0) THEN s ELSE -s
RECURSIVE Dot(_, _, _)
Dot(u, v, n) == IF n = 0 THEN 0 ELSE Mul(u[n], v[n]) + Dot(u, v, n - 1)
D(u, v) == Dot(u, v, Len(u))
Close(a, b) == Near(a, b, Tol + (Abs(a) + Abs(b)) \div 100000)
Same(u, v) == \A c \in 1..3 : Close(u[c], v[c])
(* lateral momentum carried by the orders with the given powers *)
Lateral(q) == <<D(p[1], q), D(p[2], q)>>
(* what the stack gets from above and gives below: the signs of a stress integral are those of a pressure *)
Down(l, nz) == <<-l[1], -l[2], -nz>>
Begin ==
  /\ Is("begin")
  /\ p' = ev.p /\ last' = <<>> /\ force' = <<0, 0>>
  /\ IF ev.err # "" THEN Bad("no answer") /\ inp' = <<0, 0, 0>> /\ outp' = <<0, 0, 0>>
     ELSE LET r == <<D(ev.p[1], ev.R), D(ev.p[2], ev.R)>>
              t == <<D(ev.p[1], ev.T), D(ev.p[2], ev.T)>>
          IN /\ inp' = Down(<<ev.p[1][ev.zero] - r[1], ev.p[2][ev.zero] - r[2]>>, ev.nt[ev.zero] + D(ev.nt, ev.R))
             /\ outp' = Down(t, D(ev.nb, ev.T))
(* stress integrals at increasing depths of a layer *)
Layer ==
  /\ Is("layer")
  /\ LET n == Len(ev.T)
         top == ev.T[1]
         bot == ev.T[n]
         along(t) == Mul(ev.groove[1], t[1]) + Mul(ev.groove[2], t[2])
     IN /\ Clause("lateral stress passes interfaces unchanged", last = <<>> \/ (Close(top[1], last[1]) /\ Close(top[2], last[2])))
        /\ Clause("lateral stress is the momentum of the power of each order",
                  \A k \in 1..n : LET l == Lateral(ev.S[k]) IN Close(ev.T[k][1], -l[1]) /\ Close(ev.T[k][2], -l[2]))
        /\ Clause("normal stress is the mean stress over the cell", \A k \in DOMAIN ev.real : Close(ev.real[k], ev.T[k][3]))
        /\ Clause("normal stress at all depths of a transparent layer", ev.keep = 0 \/ \A k \in 1..n : Close(ev.T[k][3], top[3]))
        /\ (ev.kind = "top" => Clause("stress above the stack is the momentum of incident and reflected orders", \A k \in 1..n : Same(ev.T[k], inp)))
        /\ (ev.kind = "bottom" => Clause("stress below the stack is the momentum of transmitted orders",
              \A k \in 1..n : IF ev.keep = 1 THEN Same(ev.T[k], outp) ELSE k > 1 \/ (Close(top[1], outp[1]) /\ Close(top[2], outp[2]))))
        /\ (ev.kind = "plain" => Clause("no force on a transparent layer without pattern", \A k \in 1..n : Same(ev.T[k], top)))
        /\ (ev.kind = "lines" /\ ev.keep = 1 => Clause("no force along the grooves", \A k \in 1..n : Close(along(ev.T[k]), along(top))))
        /\ last' = bot
        /\ force' = IF ev.kind \in {"top", "bottom"} THEN force ELSE <<force[1] + bot[1] - top[1], force[2] + bot[2] - top[2]>>
  /\ UNCHANGED <<p, inp, outp>>
End == /\ Is("end")
       /\ Clause("the stack receives what comes in and does not go out", \A c \in 1..2 : Near(outp[c] - inp[c], force[c], 6 * Tol))
       /\ UNCHANGED <<p, last, force, inp, outp>>
Done == i = Len(Trace) => Emit("DONE", i)
TInit == i = 1 /\ p = <<>> /\ last = <<>> /\ force = <<0, 0>> /\ inp = <<0, 0, 0>> /\ outp = <<0, 0, 0>>
TNext == /\ i <= Len(Trace) /\ (Begin \/ Layer \/ End) /\ i' = i + 1 /\ Done
TSpec == TInit /\ [][TNext]_tvars
==============================================================================
