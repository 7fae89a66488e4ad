-------------------------------- MODULE Recip --------------------------------
(* Reciprocity (C29).  Light walks through a stack: it comes to an element   *)
(* in an order, going down or up, and leaves it in all the orders and both   *)
(* directions the element couples it to.  In the reversed structure every    *)
(* element couples backwards (transposed tensors) and light goes the other   *)
(* way.  What a channel sends to another is the sum over all walks, counted  *)
(* here by their number of steps.                                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Layers, Orders, MaxSteps,
          Weights,     \* values of the couplings
          Choices,     \* number of couplings of an element tried (0: all of them)
          Permuting    \* elements that send every wave to one place and no two to the same
VARIABLES S,           \* S[l][in][out]: couplings of the elements
          f, b,        \* f[a]: what is on its way, after n steps, when channel a is fed
          F, B,        \* F[a][c]: what came out in channel c
          n
vars == <<S, f, b, F, B, n>>
Wave == Orders \X {1, -1}                 \* order and direction
(* a channel: a side, where light comes in or goes out, and an order *)
Chan == {0, Layers} \X Orders
InDir(c) == IF c[1] = 0 THEN 1 ELSE -1
(* a wave on its way: the gap it is in, its order, its direction *)
Node == (0..Layers) \X Wave
El(x) == IF x[2][2] = 1 THEN x[1] + 1 ELSE x[1]          \* the element it comes to
Inside(x) == El(x) \in 1..Layers
After(l, w) == IF w[2] = 1 THEN l ELSE l - 1             \* the gap it leaves to
Back(w) == <<w[1], -w[2]>>
All == [Wave -> [Wave -> Weights]]
Perm == {s \in [Wave -> [Wave -> {0, 1}]] :
           /\ \A w \in Wave : Cardinality({v \in Wave : s[w][v] = 1}) = 1
           /\ \A v \in Wave : Cardinality({w \in Wave : s[w][v] = 1}) = 1}
Couplings == IF Permuting THEN Perm
             ELSE IF Choices = 0 THEN All ELSE {[w \in Wave |-> [v \in Wave |-> RandomElement(Weights)]] : k \in 1..Choices}
Fed(c) == [x \in Node |-> IF x = <<c[1], <<c[2], InDir(c)>> >> THEN 1 ELSE 0]
Init == /\ S \in [1..Layers -> Couplings]
        /\ f = [c \in Chan |-> Fed(c)] /\ b = f
        /\ F = [c \in Chan |-> [e \in Chan |-> 0]] /\ B = F /\ n = 0
RECURSIVE Sum(_, _)
Sum(g, D) == IF D = {} THEN 0 ELSE LET x == CHOOSE y \in D : TRUE IN g[x] + Sum(g, D \ {x})
(* coupling of a wave at x to one at y, forward and in the reversed structure *)
Link(x, y, back) ==
  LET l == El(x)
  IN IF ~Inside(x) \/ y[1] # After(l, y[2]) THEN 0
     ELSE IF back THEN S[l][Back(y[2])][Back(x[2])] ELSE S[l][x[2]][y[2]]
Move(u, back) == [y \in Node |-> LET D == {x \in Node : u[x] > 0 /\ Link(x, y, back) > 0} IN Sum([x \in D |-> u[x] * Link(x, y, back)], D)]
(* the waves that have left the stack *)
OutNode(e) == <<e[1], <<e[2], -InDir(e)>> >>
Gather(G, u) == [e \in Chan |-> G[e] + u[OutNode(e)]]
Step == /\ n < MaxSteps /\ n' = n + 1 /\ UNCHANGED S
        /\ f' = [c \in Chan |-> Move(f[c], FALSE)] /\ b' = [c \in Chan |-> Move(b[c], TRUE)]
        /\ F' = [c \in Chan |-> Gather(F[c], f'[c])] /\ B' = [c \in Chan |-> Gather(B[c], b'[c])]
Next == Step
Spec == Init /\ [][Next]_vars
------------------------------------------------------------------------------
ReciprocalOK == \A c, e \in Chan : F[c][e] = B[e][c]
(* without loss, what goes in is on its way or out; no channel receives more than one *)
Way(u) == Sum([x \in {y \in Node : Inside(y)} |-> u[x]], {y \in Node : Inside(y)})
LosslessOK == Permuting => \A c \in Chan : /\ Sum(F[c], Chan) + Way(f[c]) = 1
                                           /\ Sum([e \in Chan |-> F[e][c]], Chan) <= 1
(* a permutation lets everything out in the end: all channels receive what all channels send *)
DrainedOK == Permuting /\ (\A c \in Chan : Way(f[c]) = 0) => \A c \in Chan : Sum([e \in Chan |-> F[e][c]], Chan) = 1
==============================================================================
