---------------------------- MODULE OrdersTrace -----------------------------
(* Validates recorded diffraction orders against Orders (fixed point 1e-7).  *)
EXTENDS Orders, Emit, IOUtils
CONSTANT Tol
VARIABLE i
tvars == <<vars, i>>
Trace == ndJsonDeserialize(IOEnv.TRACE_DIR \o "/trace.ndjson")
ev == Trace[i]
Is(name) == i <= Len(Trace) /\ ev.ev = name
Bad(clause) == Emit("BAD", [line |-> i, clause |-> clause])
Clause(name, ok) == IF ok THEN TRUE ELSE Bad(name)
Abs(x) == IF x < 0 THEN -x ELSE x
Near(a, b, tol) == Abs(a - b) <= tol
Big == 20000000
(* square of a fixed-point number, in the same unit *)
Sq7(c) == LET x == Abs(c)
              h == x \div 10000
              l == x % 10000
          IN h * h * 10 + (2 * h * l) \div 1000 + (l * l) \div 10000000
Pow7(a) == LET f(z) == Sq7(z[1]) + Sq7(z[2]) IN f(a[1]) + f(a[2]) + f(a[3])
Sane(a) == \A c \in 1..3 : \A k \in 1..2 : Abs(a[c][k]) < Big
RECURSIVE SumSeq(_, _)
SumSeq(q, n) == IF n = 0 THEN 0 ELSE q[n] + SumSeq(q, n - 1)
Idx(h) == CHOOSE n \in DOMAIN amp.list : amp.list[n] = h
NearV(x, y, tol) == \A c \in 1..3 : Near(x[c][1], y[c][1], tol) /\ Near(x[c][2], y[c][2], tol)
NearVal(cpl, x, y) == IF cpl THEN NearV(x, y, 3) ELSE Near(x, y, 3)
(* the table of a freshly built simulation: amp = [list, R, T, Rc, Tc, clear] *)
TableEv ==
  /\ Is("table")
  /\ amp' = ev /\ prop' = [R |-> ev.propR, T |-> ev.propT] /\ asked' = <<>> /\ ans' = None
  /\ IF ev.err # "" THEN Bad("no answer")
     ELSE /\ Clause("an entry per retained order", \A n \in {Len(ev.R), Len(ev.T), Len(ev.Rc), Len(ev.Tc)} : n = Len(ev.list))
          /\ \A n \in DOMAIN ev.list :
               /\ Clause("values are finite", Abs(ev.R[n]) < Big /\ Abs(ev.T[n]) < Big /\ Sane(ev.Rc[n]) /\ Sane(ev.Tc[n]))
               /\ (Sane(ev.Rc[n]) => Clause("reflected power of the order is that of its amplitude", Near(Pow7(ev.Rc[n]), ev.R[n], Tol)))
               /\ (ev.clear = 1 /\ Sane(ev.Tc[n]) => Clause("transmitted power of the order is that of its amplitude", Near(Pow7(ev.Tc[n]), ev.T[n], Tol)))
               /\ (ev.propR[n] = 0 => Clause("evanescent reflected order", Near(ev.R[n], 0, Tol) /\ NearV(ev.Rc[n], Nil, Tol)))
               /\ (ev.propT[n] = 0 => Clause("evanescent transmitted order", Near(ev.T[n], 0, Tol) /\ NearV(ev.Tc[n], Nil, Tol)))
(* a question with its answer; dictionaries come as lists of [order, value]  *)
AskEv ==
  /\ Is("ask")
  /\ asked' = Append(asked, ev.form) /\ UNCHANGED <<amp, prop, ans>>
  /\ IF ev.err # "" THEN Bad("no answer")
     ELSE \A s \in Sides :
       LET cpl == ev.form.complex
           tab == amp[IF cpl THEN s \o "c" ELSE s]
           n == Len(amp.list)
           v == ev[s]
       IN IF ev.kind # (IF ~ev.form.orders THEN "total" ELSE IF ev.form.dict THEN "dict" ELSE "orders") THEN Bad("form of the answer")
          ELSE IF ~ev.form.orders
          THEN IF cpl THEN Clause("total is the sum over orders", \A c \in 1..3 : \A k \in 1..2 : Near(v[c][k], SumSeq([m \in 1..n |-> tab[m][c][k]], n), n + 3))
               ELSE Clause("total is the sum over orders", Near(v, SumSeq(tab, n), n + 3))
          ELSE IF ev.form.dict
          THEN /\ Clause("dictionary holds exactly the retained orders", {v[m][1] : m \in DOMAIN v} = {amp.list[m] : m \in DOMAIN amp.list} /\ Len(v) = n)
               /\ Clause("values of the dictionary", \A m \in DOMAIN v : v[m][1] \in {amp.list[x] : x \in DOMAIN amp.list} => NearVal(cpl, v[m][2], tab[Idx(v[m][1])]))
          ELSE Clause("values of the orders", \A m \in 1..n : NearVal(cpl, v[m], tab[m]))
(* get_order(answer, order) for the last question asked with orders=True     *)
LookEv ==
  /\ Is("look")
  /\ IF ev.err # "" THEN Bad("no answer")
     ELSE Clause("order lookup", NearVal(ev.complex, ev.val, amp[IF ev.complex THEN ev.side \o "c" ELSE ev.side][Idx(ev.order)]))
  /\ UNCHANGED vars
Done == i = Len(Trace) => Emit("DONE", i)
TInit == i = 1 /\ amp = <<>> /\ prop = <<>> /\ asked = <<>> /\ ans = None
TNext == /\ i <= Len(Trace) /\ (TableEv \/ AskEv \/ LookEv) /\ i' = i + 1 /\ Done
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
