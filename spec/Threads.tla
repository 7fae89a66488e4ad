------------------------------- MODULE Threads -------------------------------
(* Computations in several threads (C31).  Each has its own objects and its  *)
(* own program; a scheduler stops one anywhere and lets another go on.  What *)
(* each answers is what it answers alone, unless something is kept where     *)
(* another one can reach it (Shared: programs that leave a value in a common *)
(* place and read it back later).                                            *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Tasks, Length, MaxSlices, Shared
VARIABLES pos, reg, common, cur, slices, switches
vars == <<pos, reg, common, cur, slices, switches>>
(* the program: the k-th step of task t; with Shared, even steps leave the   *)
(* register in the common place and odd ones take it from there              *)
F(t, k, v) == (3 * v + 7 * t + k) % 101
RECURSIVE Alone(_, _)
Alone(t, k) == IF k = 0 THEN t ELSE F(t, k, Alone(t, k - 1))
Init == pos = [t \in Tasks |-> 0] /\ reg = [t \in Tasks |-> t] /\ common = 0 /\ cur = 0 /\ slices = <<>> /\ switches = 0
Step(t) ==
  LET k == pos[t] + 1
      from == IF Shared /\ k > 1 /\ k % 2 = 1 THEN common ELSE reg[t]
      v == F(t, k, from)
  IN /\ pos[t] < Length
     /\ pos' = [pos EXCEPT ![t] = k] /\ reg' = [reg EXCEPT ![t] = v]
     /\ common' = IF Shared /\ k % 2 = 0 THEN v ELSE common
     /\ cur' = t
     /\ IF t = cur THEN slices' = [slices EXCEPT ![Len(slices)] = <<t, k>>] /\ switches' = switches
        ELSE slices' = Append(slices, <<t, k>>) /\ switches' = switches + 1 /\ switches < MaxSlices
Next == \E t \in Tasks : Step(t)
Spec == Init /\ [][Next]_vars
------------------------------------------------------------------------------
AloneOK == \A t \in Tasks : reg[t] = Alone(t, pos[t])
Finished == \A t \in Tasks : pos[t] = Length
==============================================================================
