------------------------------ MODULE Rewrite --------------------------------
(* Descriptions of the same structure (C09).                                 *)
(*                                                                           *)
(* A description is the thickness of the two outer media and a sequence of   *)
(* layers [mat, d, rep]: material, thickness in units, and representation    *)
(* ("number" or "grid" for uniform materials).  Rewritings change the        *)
(* description and keep the structure, that is its normal form: adjacent     *)
(* layers of one material are one layer, layers of no thickness are none.    *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Uni, Pat,      \* uniform and patterned materials
          MaxD, MaxLen, MaxSteps, MaxInit
VARIABLES stack, outer, names, steps, orig
vars == <<stack, outer, names, steps, orig>>
Mats == Uni \cup Pat
Reps(m) == IF m \in Uni THEN {"number", "grid"} ELSE {"grid"}
L(m, d, r) == [mat |-> m, d |-> d, rep |-> r]
RECURSIVE NF(_)
NF(s) == IF s = <<>> THEN <<>>
         ELSE LET h == Head(s)
                  t == NF(Tail(s))
              IN IF h.d = 0 THEN t
                 ELSE IF t # <<>> /\ t[1].mat = h.mat THEN <<[mat |-> h.mat, d |-> h.d + t[1].d]>> \o Tail(t)
                 ELSE <<[mat |-> h.mat, d |-> h.d]>> \o t
Cut(s, a, b) == SubSeq(s, a, b)
Put(s, i, new) == Cut(s, 1, i - 1) \o new \o Cut(s, i + 1, Len(s))
Keep == UNCHANGED <<orig>> /\ steps' = steps + 1 /\ steps < MaxSteps
Split(i, a) == /\ Keep /\ Len(stack) < MaxLen /\ a \in 0..stack[i].d
               /\ stack' = Put(stack, i, <<[stack[i] EXCEPT !.d = a], [stack[i] EXCEPT !.d = stack[i].d - a]>>)
               /\ UNCHANGED <<outer, names>>
Merge(i) == /\ Keep /\ i < Len(stack) /\ stack[i].mat = stack[i + 1].mat
            /\ stack' = Cut(stack, 1, i - 1) \o <<[stack[i] EXCEPT !.d = stack[i].d + stack[i + 1].d]>> \o Cut(stack, i + 2, Len(stack))
            /\ UNCHANGED <<outer, names>>
Insert(i, m, r) == /\ Keep /\ Len(stack) < MaxLen /\ r \in Reps(m)
                   /\ stack' = Cut(stack, 1, i) \o <<L(m, 0, r)>> \o Cut(stack, i + 1, Len(stack))
                   /\ UNCHANGED <<outer, names>>
Remove(i) == /\ Keep /\ stack[i].d = 0 /\ Len(stack) > 1
             /\ stack' = Cut(stack, 1, i - 1) \o Cut(stack, i + 1, Len(stack))
             /\ UNCHANGED <<outer, names>>
Represent(i, r) == /\ Keep /\ stack[i].rep # r /\ r \in Reps(stack[i].mat)
                   /\ stack' = [stack EXCEPT ![i].rep = r] /\ UNCHANGED <<outer, names>>
Outer(side, d) == /\ Keep /\ outer[side] # d /\ outer' = [outer EXCEPT ![side] = d] /\ UNCHANGED <<stack, names>>
Rename(k) == /\ Keep /\ names # k /\ names' = k /\ UNCHANGED <<stack, outer>>
Init == /\ \E n \in 1..MaxInit : stack \in [1..n -> {L(m, d, IF m \in Uni THEN "number" ELSE "grid") : m \in Mats, d \in 1..MaxD}]
        /\ orig = stack /\ outer = <<0, 0>> /\ names = 0 /\ steps = 0
Next == \/ \E i \in DOMAIN stack : \/ \E a \in 0..stack[i].d : Split(i, a)
                                   \/ Merge(i) \/ Remove(i)
                                   \/ \E r \in {"number", "grid"} : Represent(i, r)
        \/ \E i \in 0..Len(stack), m \in Mats, r \in {"number", "grid"} : Insert(i, m, r)
        \/ \E side \in 1..2, d \in 0..MaxD : Outer(side, d)
        \/ \E k \in 0..2 : Rename(k)
Spec == Init /\ [][Next]_vars
---------------------------------------------------------------------------
SameStructure == NF(stack) = NF(orig)
RECURSIVE Thick(_)
Thick(s) == IF s = <<>> THEN 0 ELSE s[1].d + Thick(Tail(s))
SameThickness == Thick(stack) = Thick(orig)
(* every description can be brought back to the normal form by the rewritings *)
NFStable == LET n == NF(stack) IN \A i \in 1..(Len(n) - 1) : n[i].mat # n[i + 1].mat
=============================================================================
