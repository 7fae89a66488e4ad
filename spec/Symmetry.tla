------------------------------ MODULE Symmetry -------------------------------
(* Descriptions of one periodic structure related by symmetries (C19) and by *)
(* the choice of the cell (C20).                                             *)
(*                                                                           *)
(* The structure is a grid of n[1] x n[2] points of a cell.  A description   *)
(* reads the point x of its own grid (of m[1] x m[2] points) at A x + t of   *)
(* the original one; the harmonic h of the original is the harmonic O h of   *)
(* the description.  The scene as a whole may be turned, mirrored and scaled.*)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Sizes,        \* grids of the original cell
          MaxEntry,     \* bound on the entries of O
          MaxSteps, MaxArea,
          Kinds,        \* kinds of operations allowed
          Explicit      \* carry the grid of the description (model checking)
VARIABLES n, m, A, t, O, turn, flip, scale, steps, g
vars == <<n, m, A, t, O, turn, flip, scale, steps, g>>
Abs(x) == IF x < 0 THEN -x ELSE x
Ap(M, x) == << M[1][1] * x[1] + M[1][2] * x[2], M[2][1] * x[1] + M[2][2] * x[2] >>
Mul(M, P) == << <<M[1][1] * P[1][1] + M[1][2] * P[2][1], M[1][1] * P[1][2] + M[1][2] * P[2][2]>>,
               <<M[2][1] * P[1][1] + M[2][2] * P[2][1], M[2][1] * P[1][2] + M[2][2] * P[2][2]>> >>
Tr(M) == << <<M[1][1], M[2][1]>>, <<M[1][2], M[2][2]>> >>
Plus(a, b) == << a[1] + b[1], a[2] + b[2] >>
Mod(a, k) == << a[1] % k[1], a[2] % k[2] >>
Id == << <<1, 0>>, <<0, 1>> >>
Box(k) == (0..(k[1] - 1)) \X (0..(k[2] - 1))
(* the original pattern: all points different, so that nothing is lost *)
Val(k, x) == x[1] * k[2] + x[2]
Below(M) == \A a, b \in 1..2 : Abs(M[a][b]) <= MaxEntry
Grid(P, k) == IF Explicit THEN [x \in Box(k) |-> g[Mod(Ap(P, x), m)]] ELSE g
Shift(v) == IF Explicit THEN [x \in Box(m) |-> g[Mod(Plus(x, v), m)]] ELSE g
Init == /\ n \in Sizes /\ m = n /\ A = Id /\ t = <<0, 0>> /\ O = Id /\ turn = 0 /\ flip = 0 /\ scale = 0 /\ steps = 0
        /\ g = IF Explicit THEN [x \in Box(n) |-> Val(n, x)] ELSE <<>>
Step == steps < MaxSteps /\ steps' = steps + 1 /\ UNCHANGED n
(* translate the pattern by -v grid steps *)
Translate(v) == /\ "translate" \in Kinds /\ Step
                /\ t' = Mod(Plus(t, Ap(A, v)), n) /\ g' = Shift(v)
                /\ UNCHANGED <<m, A, O, turn, flip, scale>>
(* another basis of the lattice: u1' = P11 u1 + P21 u2, u2' = P12 u1 + P22 u2 *)
Swap == << <<0, 1>>, <<1, 0>> >>
Neg1 == << <<-1, 0>>, <<0, 1>> >>
Neg2 == << <<1, 0>>, <<0, -1>> >>
Sh12(s) == << <<1, s>>, <<0, 1>> >>
Sh21(s) == << <<1, 0>>, <<s, 1>> >>
(* on the grid the shear of the basis by s is one of s m1/m2 grid steps *)
Basis(P, GP, k) == /\ "basis" \in Kinds /\ Step
                   /\ A' = Mul(A, GP) /\ O' = Mul(Tr(P), O) /\ Below(O') /\ m' = k /\ g' = Grid(GP, k)
                   /\ UNCHANGED <<t, turn, flip, scale>>
BasisChange == \/ Basis(Swap, Swap, <<m[2], m[1]>>) \/ Basis(Neg1, Neg1, m) \/ Basis(Neg2, Neg2, m)
               \/ \E s \in {-1, 1} : \/ m[1] % m[2] = 0 /\ Basis(Sh12(s), Sh12(s * (m[1] \div m[2])), m)
                                     \/ m[2] % m[1] = 0 /\ Basis(Sh21(s), Sh21(s * (m[2] \div m[1])), m)
(* a cell a x b times larger *)
Tile(a, b) == /\ "tile" \in Kinds /\ Step /\ a * b > 1 /\ a * b * m[1] * m[2] <= MaxArea * n[1] * n[2]
              /\ m' = << a * m[1], b * m[2] >>
              /\ O' = Mul(<< <<a, 0>>, <<0, b>> >>, O) /\ Below(O')
              /\ g' = Grid(Id, << a * m[1], b * m[2] >>)
              /\ UNCHANGED <<A, t, turn, flip, scale>>
(* the whole scene, incident wave included *)
Turn(k) == /\ "turn" \in Kinds /\ Step /\ turn' = (turn + k) % 24 /\ UNCHANGED <<m, A, t, O, flip, scale, g>>
Flip == /\ "flip" \in Kinds /\ Step /\ flip' = 1 - flip /\ turn' = (24 - turn) % 24 /\ UNCHANGED <<m, A, t, O, scale, g>>
Scale(k) == /\ "scale" \in Kinds /\ Step /\ scale # k /\ scale' = k /\ UNCHANGED <<m, A, t, O, turn, flip, g>>
(* a mono-periodic lattice lies along x: the mirrors that keep it *)
MirrorX == /\ "mirrors" \in Kinds /\ Step /\ A' = Mul(A, Neg1) /\ O' = Mul(Neg1, O) /\ g' = Grid(Neg1, m)
           /\ flip' = 1 - flip /\ turn' = (24 - turn) % 24 /\ UNCHANGED <<m, t, scale>>
MirrorY == /\ "mirrors" \in Kinds /\ Step /\ flip' = 1 - flip /\ turn' = (36 - turn) % 24 /\ UNCHANGED <<m, A, t, O, scale, g>>
Next == \/ \E v \in Box(m) : Translate(v)
        \/ BasisChange
        \/ \E a, b \in 1..3 : Tile(a, b)
        \/ \E k \in {1, 2, 3, 6, 12, 17} : Turn(k)
        \/ Flip \/ \E k \in 0..3 : Scale(k)
        \/ MirrorX \/ MirrorY
Spec == Init /\ [][Next]_vars
---------------------------------------------------------------------------
(* the description reads the original pattern where its map says *)
MapOK == Explicit => \A x \in Box(m) : g[x] = Val(n, Mod(Plus(Ap(A, x), t), n))
(* and the map respects the period of the description: same cell, other origin *)
PeriodOK == \A x \in {<<m[1], 0>>, <<0, m[2]>>} : Mod(Ap(A, x), n) = <<0, 0>>
Det(M) == M[1][1] * M[2][2] - M[1][2] * M[2][1]
(* the number of cells of the original in the cell described *)
AreaOK == Abs(Det(O)) * n[1] * n[2] = m[1] * m[2]
(* phases: the plane wave h of the original, read at the points of the       *)
(* description, is its plane wave O h:  h.(A x)/n = (O h).x/m  modulo 1      *)
PhaseOK == \A h \in {<<1, 0>>, <<0, 1>>} : \A x \in {<<1, 0>>, <<0, 1>>} :
             LET a == Ap(A, x)
                 k == Ap(O, h)
             IN (h[1] * a[1] * n[2] * m[1] * m[2] + h[2] * a[2] * n[1] * m[1] * m[2]
                  - k[1] * x[1] * m[2] * n[1] * n[2] - k[2] * x[2] * m[1] * n[1] * n[2]) % (n[1] * n[2] * m[1] * m[2]) = 0
(* the mirrors of a mono-periodic lattice leave its period along +x *)
AlongOK == ("mirrors" \in Kinds /\ "turn" \notin Kinds) =>
             turn \in {0, 12} /\ O[1][1] * (IF flip = 1 THEN -1 ELSE 1) * (IF turn = 12 THEN -1 ELSE 1) = 1 /\ O[2] = <<0, 1>>
=============================================================================
