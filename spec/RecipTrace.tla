------------------------------ MODULE RecipTrace ------------------------------
(* Powers sent by each channel of a structure to each other, recorded one    *)
(* fed channel at a time, in any order, in the structure (dir 0) and in the  *)
(* reversed one (dir 1).  A channel: side, order and polarization.           *)
EXTENDS Integers, Sequences, Emit, IOUtils
CONSTANT Tol
VARIABLES i, n, lossless, whole, tab
tvars == <<i, n, lossless, whole, tab>>
Trace == ndJsonDeserialize(IOEnv.TRACE_DIR \o "/trace.ndjson")
ev == Trace[i]
Is(name) == i <= Len(Trace) /\ ev.ev = name
Bad(clause) == Emit("BAD", [line |-> i, clause |-> clause])
Clause(name, ok) == IF ok THEN TRUE ELSE Bad(name)
Abs(x) == IF x < 0 THEN -x ELSE x
Near(a, b, tol) == Abs(a - b) <= tol
One == 1000000
RECURSIVE Sum(_, _)
Sum(u, k) == IF k = 0 THEN 0 ELSE u[k] + Sum(u, k - 1)
Begin == /\ Is("begin") /\ n' = ev.n /\ lossless' = ev.lossless /\ whole' = ev.whole
         /\ tab' = [d \in 0..1 |-> [k \in 1..ev.n |-> <<>>]]
         /\ Clause("no answer", ev.err = "")
Send ==
  /\ Is("send")
  /\ LET o == tab[1 - ev.dir]
         a == ev.frm
     IN /\ Clause("a channel gets no negative power", \A k \in 1..n : ev.out[k] >= -Tol)
        /\ Clause("a channel receives what it would send in the reversed structure",
                  \A k \in 1..n : o[k] = <<>> \/ Near(ev.out[k], o[k][a], Tol))
        /\ Clause("no more comes out than goes in", ev.tot <= One + Tol /\ Sum(ev.out, n) <= ev.tot + Tol)
        /\ Clause("without loss all comes out", lossless = 0 \/ Near(ev.tot, One, Tol))
        /\ Clause("all channels are seen", whole = 0 \/ Near(Sum(ev.out, n), ev.tot, Tol))
        /\ tab' = [tab EXCEPT ![ev.dir][a] = ev.out]
  /\ UNCHANGED <<n, lossless, whole>>
(* column of the table: what the channel gets when all are fed in turn *)
Got(d, k) == Sum([a \in 1..n |-> tab[d][a][k]], n)
End == /\ Is("end")
       /\ Clause("every channel was fed both ways", \A d \in 0..1 : \A a \in 1..n : tab[d][a] # <<>>)
       /\ Clause("a channel gets no more than one can be sent", \A d \in 0..1 : \A k \in 1..n : Got(d, k) <= One + Tol)
       /\ Clause("without loss a channel gets as much as it sends",
                 (lossless = 1 /\ whole = 1) => \A d \in 0..1 : \A k \in 1..n : Near(Got(d, k), One, Tol))
       /\ UNCHANGED <<n, lossless, whole, tab>>
Done == i = Len(Trace) => Emit("DONE", i)
TInit == i = 1 /\ n = 0 /\ lossless = 0 /\ whole = 0 /\ tab = <<>>
TNext == /\ i <= Len(Trace) /\ (Begin \/ Send \/ End) /\ i' = i + 1 /\ Done
TSpec == TInit /\ [][TNext]_tvars
==============================================================================
