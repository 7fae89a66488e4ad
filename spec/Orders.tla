------------------------------- MODULE Orders -------------------------------
(* Accounting of diffraction orders (C11).                                   *)
(*                                                                           *)
(* A simulation holds, for each side ("R", "T") and each retained order, the *)
(* three complex components of the normalized amplitude; evanescent orders   *)
(* carry none.  A question is a form (summed or not, powers or amplitudes,   *)
(* dictionary or not) or a lookup of one order; its answer is a view of that *)
(* table, whatever was asked before.                                         *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Ords,      \* retained orders
          Comp,      \* values of the real and imaginary parts of components
          MaxAsk
VARIABLES amp,       \* amp[side][order] = << <<re, im>>, <<re, im>>, <<re, im>> >>
          prop,      \* prop[side]: propagating orders
          asked,     \* sequence of questions
          ans        \* last answer
vars == <<amp, prop, asked, ans>>
Sides == {"R", "T"}
Forms == [orders: BOOLEAN, complex: BOOLEAN, dict: BOOLEAN]
RECURSIVE SumOver(_, _)
SumOver(S, f) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + SumOver(S \ {x}, f)
N2(z) == z[1] * z[1] + z[2] * z[2]
Power(a) == N2(a[1]) + N2(a[2]) + N2(a[3])
Table(form, s) == [o \in Ords |-> IF form.complex THEN amp[s][o] ELSE Power(amp[s][o])]
Total(form, s) == IF form.complex THEN [c \in 1..3 |-> [k \in 1..2 |-> SumOver(Ords, [o \in Ords |-> amp[s][o][c][k]])]]
                  ELSE SumOver(Ords, Table(form, s))
(* shape of the answer and its content *)
View(form, s) == IF ~form.orders THEN [kind |-> "total", val |-> Total(form, s)]
                 ELSE IF form.dict THEN [kind |-> "dict", val |-> Table(form, s)]
                 ELSE [kind |-> "orders", val |-> Table(form, s)]
None == [kind |-> "none"]
Nil == << <<0, 0>>, <<0, 0>>, <<0, 0>> >>
Init == /\ prop \in [Sides -> {P \in SUBSET Ords : P # {}}]
        /\ amp \in [Sides -> [Ords -> {Nil} \cup {<< <<a, b>>, <<0, 0>>, <<b, 0>> >> : a, b \in Comp}]]
        /\ \A s \in Sides : \A o \in Ords \ prop[s] : amp[s][o] = Nil
        /\ asked = <<>> /\ ans = None
Ask(form) == /\ Len(asked) < MaxAsk
             /\ asked' = Append(asked, form)
             /\ ans' = [form |-> form, R |-> View(form, "R"), T |-> View(form, "T")]
             /\ UNCHANGED <<amp, prop>>
Next == \E form \in Forms : Ask(form)
Spec == Init /\ [][Next]_vars
---------------------------------------------------------------------------
(* what a user may conclude from any answer *)
TotalsOK == asked # <<>> /\ ~ans.form.complex /\ ~ans.form.orders =>
              \A s \in Sides : ans[s].val = SumOver(prop[s], [o \in Ords |-> Power(amp[s][o])])
DictOK == asked # <<>> /\ ans.form.orders => \A s \in Sides : DOMAIN ans[s].val = Ords
EvanescentOK == asked # <<>> /\ ans.form.orders => \A s \in Sides : \A o \in Ords \ prop[s] : ans[s].val[o] = IF ans.form.complex THEN Nil ELSE 0
(* summed powers never exceed nor miss what the amplitudes carry *)
AgreeOK == asked # <<>> /\ ans.form.orders /\ ans.form.complex =>
             \A s \in Sides : SumOver(Ords, [o \in Ords |-> Power(ans[s].val[o])]) = Total([ans.form EXCEPT !.complex = FALSE], s)
=============================================================================
