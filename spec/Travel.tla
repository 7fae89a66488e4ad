-------------------------------- MODULE Travel -------------------------------
(* Duplicates of simulations (C34).  A group is a stack of layers and the     *)
(* simulations that share it.  A group, solved or not, can be duplicated      *)
(* (deep copy, pickle, another process): the duplicate answers as the         *)
(* original did, and from then on the two are independent.                    *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Slots, Sims, Layers, Vers, Kinds,
          Alias,      \* faulty: duplicates keep the layers of the original
          Unkept,     \* faulty: a duplicate shares the results of the original
          ByPlace     \* faulty: results are filed under the place of the object
VARIABLES grp,    \* slot -> [alive, sims, own (what it was set to), cells]
          heap,   \* cell -> version
          memo,   \* <<slot, sim>> -> answer or None
          last    \* the last answer: <<slot, sim, given, right>>
vars == <<grp, heap, memo, last>>
None == <<>>
Cell(g, l) == <<g, l>>
Cells == Slots \X Layers
Seen(g) == [l \in Layers |-> heap[grp[g].cells[l]]]
Dead == [alive |-> FALSE, sims |-> {}, own |-> [l \in Layers |-> 0], cells |-> [l \in Layers |-> Cell(CHOOSE s \in Slots : TRUE, l)]]
Init == /\ grp = [g \in Slots |-> Dead] /\ heap = [c \in Cells |-> 0]
        /\ memo = [p \in Slots \X Sims |-> None] /\ last = None
Fresh(g) == [l \in Layers |-> Cell(g, l)]
Build(g, S) == /\ ~grp[g].alive /\ S # {}
               /\ grp' = [grp EXCEPT ![g] = [alive |-> TRUE, sims |-> S, own |-> [l \in Layers |-> 0], cells |-> Fresh(g)]]
               /\ heap' = [c \in Cells |-> IF c[1] = g THEN 0 ELSE heap[c]]
               /\ memo' = IF ByPlace THEN memo ELSE [p \in Slots \X Sims |-> IF p[1] = g THEN None ELSE memo[p]]
               /\ last' = None
(* a layer changes, and the simulations that use it are reset *)
Set(g, l, v) == /\ grp[g].alive /\ grp[g].own[l] # v
                /\ grp' = [grp EXCEPT ![g].own[l] = v]
                /\ heap' = [heap EXCEPT ![grp[g].cells[l]] = v]
                /\ memo' = [p \in Slots \X Sims |-> IF p[1] = g THEN None ELSE memo[p]]
                /\ last' = None
(* S: the simulations that are taken along; kind: how *)
Dup(g, h, S, kind) == /\ grp[g].alive /\ ~grp[h].alive /\ S # {} /\ S \subseteq grp[g].sims
                      /\ grp' = [grp EXCEPT ![h] = [alive |-> TRUE, sims |-> S, own |-> grp[g].own, cells |-> IF Alias THEN grp[g].cells ELSE Fresh(h)]]
                      /\ heap' = [c \in Cells |-> IF c[1] = h THEN heap[grp[g].cells[c[2]]] ELSE heap[c]]
                      /\ memo' = [p \in Slots \X Sims |-> IF p[1] = h /\ ~ByPlace THEN memo[<<g, p[2]>>] ELSE memo[p]]
                      /\ last' = None
Right(g, s) == <<s, grp[g].own>>
Answer(g, s) == IF memo[<<g, s>>] # None THEN memo[<<g, s>>] ELSE <<s, Seen(g)>>
Ask(g, s) == /\ grp[g].alive /\ s \in grp[g].sims
             /\ last' = <<Answer(g, s), Right(g, s)>>
             /\ memo' = IF Unkept THEN [p \in Slots \X Sims |-> IF p[2] = s THEN Answer(g, s) ELSE memo[p]] ELSE [memo EXCEPT ![<<g, s>>] = Answer(g, s)]
             /\ UNCHANGED <<grp, heap>>
Drop(g) == /\ grp[g].alive /\ grp' = [grp EXCEPT ![g] = Dead] /\ last' = None /\ UNCHANGED <<heap, memo>>
Next == \/ \E g \in Slots, S \in SUBSET Sims : Build(g, S)
        \/ \E g \in Slots, l \in Layers, v \in Vers : Set(g, l, v)
        \/ \E g, h \in Slots, S \in SUBSET Sims, k \in Kinds : Dup(g, h, S, k)
        \/ \E g \in Slots, s \in Sims : Ask(g, s)
        \/ \E g \in Slots : Drop(g)
Spec == Init /\ [][Next]_vars
------------------------------------------------------------------------------
AnswersOK == last # None => last[1] = last[2]
(* what a group holds is what it was set to *)
OwnOK == \A g \in Slots : grp[g].alive => Seen(g) = grp[g].own
(* results that are kept are right *)
KeptOK == \A g \in Slots, s \in Sims : grp[g].alive /\ s \in grp[g].sims /\ memo[<<g, s>>] # None => memo[<<g, s>>] = Right(g, s)
==============================================================================
