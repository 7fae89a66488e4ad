----------------------------- MODULE MCDensity ------------------------------
(* A density edited point by point, and what the laws make of it.            *)
EXTENDS Density, Emit
CONSTANTS Sizes, Levels, Widths, Edits, Materials
VARIABLES N, q, x, edits, last
vars == <<N, q, x, edits, last>>
Box == (0..(N[1] - 1)) \X (0..(N[2] - 1))
Init == /\ N \in Sizes /\ q \in Widths \X Widths
        /\ x = [a \in 1..N[1] |-> [b \in 1..N[2] |-> 0]] /\ edits = 0 /\ last = <<>>
Edit == /\ edits < Edits /\ edits' = edits + 1 /\ UNCHANGED <<N, q>> /\ last' = x
        /\ \E c \in Box, v \in Levels : x' = [x EXCEPT ![c[1] + 1][c[2] + 1] = v]
Next == Edit
Spec == Init /\ [][Next]_vars
W == << Kernel(N[1], q[1]), Kernel(N[2], q[2]) >>
F(y) == [c \in Box |-> Filter(y, W[1], W[2], c[1], c[2])]
Moved(y) == [a \in 1..N[1] |-> [b \in 1..N[2] |-> At(y, a, b + 1)]]
Mirror(y) == [a \in 1..N[1] |-> [b \in 1..N[2] |-> y[N[1] + 1 - a][b]]]
Comp(y) == [a \in 1..N[1] |-> [b \in 1..N[2] |-> 8 - y[a][b]]]
Flat8 == [a \in 1..N[1] |-> [b \in 1..N[2] |-> 8]]
MeanOf(f) == LET RECURSIVE S(_, _)
                 S(D, acc) == IF D = {} THEN acc ELSE LET c == CHOOSE c \in D : TRUE IN S(D \ {c}, Add(acc, f[c]))
             IN S(Box, Zero)
Raw == [c \in Box |-> R(x[c[1] + 1][c[2] + 1], 1)]
(* filter *)
ConstantOK == \A c \in Box : F(Flat8)[c] = R(8, 1)
MeanOK == MeanOf(F(x)) = MeanOf(Raw)
MovesOK == \A c \in Box : F(Moved(x))[c] = F(x)[<<(c[1] + 1) % N[1], (c[2] + 2) % N[2]>>]
MirrorOK == N[1] % 2 = 1 => \A c \in Box : F(Mirror(x))[c] = F(x)[<<N[1] - 1 - c[1], c[2]>>]
SumOK == \A c \in Box : Add(F(x)[c], F(Comp(x))[c]) = R(8, 1)
RangeOK == \A c \in Box : Leq(Zero, F(x)[c]) /\ Leq(F(x)[c], R(8, 1))
(* more density somewhere is nowhere less after the filter *)
GrowOK == [][(\A c \in Box : x[c[1] + 1][c[2] + 1] <= x'[c[1] + 1][c[2] + 1]) => \A c \in Box : Leq(F(x)[c], F(x')[c])]_vars
NoneOK == q = <<0, 0>> => F(x) = Raw
(* projections, at every state the same: checked once *)
Ts(m) == IF m = 1 THEN 1..7 ELSE 1..7
ProjectOK == edits = 0 => \A m \in 1..2 : \A t \in Ts(m) :
  /\ Project(0, m, t) = Zero /\ Project(8, m, t) = One
  /\ \A k \in 0..7 : FixR(Project(k, m, t), 8) < FixR(Project(k + 1, m, t), 8)
  /\ \A k \in 0..8 : Project(k, m, t) = Sub(One, Project(8 - k, m, 8 - t))
MultiOK == edits = 0 => \A m \in 1..2, n \in {2, 4, 8} :
  /\ MultiProject(0, m, n) = 0 /\ MultiProject(8, m, n) = 10000000
  /\ \A k \in 0..7 : MultiProject(k, m, n) < MultiProject(k + 1, m, n)
(* interpolations *)
NodesOK == edits = 0 => \A es \in Materials, p \in 1..2 : \A j \in DOMAIN es : MultiSimp(R(j - 1, Len(es) - 1), es, p) = es[j]
TwoOK == edits = 0 => \A es \in Materials, p \in 1..3, k \in 0..8 : Len(es) = 2 => MultiSimp(R(k, 8), es, p) = Simp(R(k, 8), es[1], es[2], p)
BetweenOK == edits = 0 => \A p \in 1..3, k \in 0..7 : LET a == R(2, 1)
                                                           b == R(9, 1)
                                                       IN /\ Simp(Zero, a, b, p) = a /\ Simp(One, a, b, p) = b
                                                          /\ Leq(Simp(R(k, 8), a, b, p), Simp(R(k + 1, 8), a, b, p))
EmitDensity == edits = Edits => Emit("DENSITY", [N |-> N, q |-> q, x |-> x])
mcSizes == {<<3, 3>>, <<3, 1>>, <<4, 2>>}
genSizes == {<<3, 3>>, <<5, 3>>, <<5, 5>>, <<7, 3>>, <<3, 7>>, <<5, 1>>, <<1, 5>>, <<4, 4>>, <<6, 3>>, <<3, 4>>, <<6, 6>>, <<4, 1>>}
mats == {<<C(2, 0, 1), C(9, 0, 1)>>, <<C(1, 0, 1), C(4, 0, 1), C(12, 1, 1)>>, <<C(1, 0, 1), C(4, -1, 1), C(2, 0, 1), C(9, 0, 1)>>,
         <<C(3, 0, 1), C(1, 0, 1), C(4, 2, 1), C(1, 0, 1), C(5, 0, 1)>>}
=============================================================================
