------------------------------ MODULE DepthTrace ------------------------------
(* Real stacks with layers of any thickness.  Powers in 1e-8, logarithms in   *)
(* thousandths of a decade (Nil: nothing); stack: exponents of the layers.    *)
EXTENDS Integers, Sequences, Emit, IOUtils
CONSTANTS Atts, MaxLayers, Range, Digits, Transfer
VARIABLES i, stack, s21, s12, s22, echo, lost, R, T, logT
tvars == <<i, stack, s21, s12, s22, echo, lost, R, T, logT>>
INSTANCE Depth
Trace == ndJsonDeserialize(IOEnv.TRACE_DIR \o "/trace.ndjson")
ev == Trace[i]
Is(name) == i <= Len(Trace) /\ ev.ev = name
Bad(clause) == Emit("BAD", [line |-> i, clause |-> clause])
Clause(name, ok) == IF ok THEN TRUE ELSE Bad(name)
Abs(x) == IF x < 0 THEN -x ELSE x
One == 100000000
Nil == -1000000
Keep == UNCHANGED <<stack, s21, s12, s22, echo, lost, R, T, logT>>
Same(x, y) == Len(x) = Len(y) /\ \A k \in DOMAIN x : Abs(x[k] - y[k]) <= 20
RECURSIVE Sum(_)
Sat(x) == IF x > 1000000000 THEN 1000000000 ELSE IF x < -1000000000 THEN -1000000000 ELSE x
Sum(x) == IF x = <<>> THEN 0 ELSE Sat(Head(x) + Sum(Tail(x)))
(* the other formulations conserve energy in the limit only *)
Sound(r, t) == LET m == IF ev.bound = 1 THEN One + 100 ELSE 2 * One
               IN /\ \A k \in DOMAIN r : r[k] >= -20 /\ r[k] <= m
                  /\ \A k \in DOMAIN t : t[k] >= -20 /\ t[k] <= m
                  /\ Sum(r) + Sum(t) <= m
Begin ==
  /\ Is("begin")
  /\ stack' = ev.stack /\ R' = ev.R /\ T' = ev.T /\ logT' = ev.logT
  /\ IF ev.err # "" THEN Bad("no answer")
     ELSE /\ Clause("powers are sound", Sound(ev.R, ev.T))
          /\ Clause("nothing is lost", ev.lossless = 0 \/ Abs(Sum(ev.R) + Sum(ev.T) - One) <= 100)
          /\ Clause("what passes", LET a == Total(ev.stack, Len(ev.stack)) IN 2 * a < 2 * Range + 60 \/ ev.logT = Nil)
  /\ UNCHANGED <<s21, s12, s22, echo, lost>>
(* one layer takes m more: log T falls by 2 m if the slowest wave is alone behind it, R stays *)
Deeper ==
  /\ Is("deeper") /\ Keep
  /\ IF ev.err # "" THEN Bad("no answer")
     ELSE LET a == A + ev.by
          IN /\ Clause("powers are sound", Sound(ev.R, ev.T))
             /\ Clause("a thick layer made thicker reflects the same", stack[ev.j] < 5 \/ Same(ev.R, R))
             /\ Clause("each thickness takes the same share",
                       ev.alone = 0 \/ (IF a < 140 THEN Abs(ev.logT - logT + 2000 * ev.by) <= 20
                                        ELSE IF a > 170 THEN ev.logT = Nil ELSE TRUE))
(* everything beneath layer j replaced *)
Hidden ==
  /\ Is("hidden") /\ Keep
  /\ IF ev.err # "" THEN Bad("no answer")
     ELSE Clause("what is beneath an opaque layer is not seen", 2 * Above(ev.j + 1) <= Digits \/ Same(ev.R, R))
(* a layer of nearly no thickness, or whole turns of a uniform one *)
Nothing ==
  /\ Is("nothing") /\ Keep
  /\ IF ev.err # "" THEN Bad("no answer")
     ELSE Clause(ev.what, \A k \in DOMAIN R : Abs(ev.R[k] - R[k]) <= ev.tol) /\ Clause(ev.what, \A k \in DOMAIN T : Abs(ev.T[k] - T[k]) <= ev.tol)
(* powers while a film grows from nothing in equal steps *)
Ladder ==
  /\ Is("ladder") /\ Keep
  /\ IF ev.err # "" THEN Bad("no answer")
     ELSE LET N == Len(ev.tab)
              M == Len(ev.tab[1])
              Ok == \A n \in 1..N : Len(ev.tab[n]) = M /\ \A k \in 1..M : Abs(ev.tab[n][k]) < 500000000
              Step(n, k) == ev.tab[n + 1][k] - ev.tab[n][k]
              Most == CHOOSE m \in {Abs(Step(n, k)) : n \in 1..(N - 1), k \in 1..M} : \A n \in 1..(N - 1), k \in 1..M : Abs(Step(n, k)) <= m
          IN Clause("powers are sound", Ok) /\ (Ok => Clause("a thin film acts in proportion to its thickness",
                 LET t == ev.slack + Most \div 5 IN \A n \in 2..(N - 1), k \in 1..M : Abs(Step(n, k) - Step(n - 1, k)) <= t))
(* the field in layer j, at tenths of its thickness *)
Fields ==
  /\ Is("fields") /\ Keep
  /\ IF ev.err # "" THEN Bad("no answer")
     ELSE /\ Clause("fields are bounded", \A k \in DOMAIN ev.log : ev.log[k] < 4000)
          /\ Clause("fields decay", \A k \in DOMAIN ev.at :
                ev.at[k] \notin 4..7 \/ ev.alone = 0 \/
                (LET z == Above(ev.j) + (ev.at[k] * stack[ev.j]) \div 10 IN
                   \/ z > 290
                   \/ \A l \in DOMAIN ev.at : ev.at[l] \notin 4..7 \/ Above(ev.j) + stack[ev.j] > 290
                        \/ Abs((ev.log[k] - ev.log[l]) + 100 * (ev.at[k] - ev.at[l]) * stack[ev.j]) <= 20))
Done == i = Len(Trace) => Emit("DONE", i)
TInit == i = 1 /\ stack = <<>> /\ s21 = 0 /\ s12 = 0 /\ s22 = 0 /\ echo = <<>> /\ lost = FALSE /\ R = <<>> /\ T = <<>> /\ logT = 0
TNext == /\ i <= Len(Trace) /\ (Begin \/ Deeper \/ Hidden \/ Nothing \/ Ladder \/ Fields) /\ i' = i + 1 /\ Done
TSpec == TInit /\ [][TNext]_tvars
==============================================================================
