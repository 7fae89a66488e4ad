-------------------------------- MODULE Cell ---------------------------------
(* The cell of a lattice (C32): its basis (rows, integers over den), what it *)
(* measures and how bases of one lattice are related.                        *)
EXTENDS Integers, Sequences
CONSTANTS MaxEntry, MaxSteps, Dens
VARIABLES b, den, cells, turns, steps
vars == <<b, den, cells, turns, steps>>
Abs(x) == IF x < 0 THEN -x ELSE x
Det(m) == m[1][1] * m[2][2] - m[1][2] * m[2][1]
Mul(m, p) == << <<m[1][1] * p[1][1] + m[1][2] * p[2][1], m[1][1] * p[1][2] + m[1][2] * p[2][2]>>,
               <<m[2][1] * p[1][1] + m[2][2] * p[2][1], m[2][1] * p[1][2] + m[2][2] * p[2][2]>> >>
(* rows of the dual basis times Det: u_i . k_j = Det delta_ij *)
Dual(m) == << <<m[2][2], -m[2][1]>>, <<-m[1][2], m[1][1]>> >>
Dot(u, v) == u[1] * v[1] + u[2] * v[2]
Small(m) == \A i, j \in 1..2 : Abs(m[i][j]) <= MaxEntry
Init == b = << <<1, 0>>, <<0, 1>> >> /\ den \in Dens /\ cells = 1 /\ turns = 0 /\ steps = 0
Use(m) == b' = m /\ Small(m) /\ steps < MaxSteps /\ steps' = steps + 1 /\ UNCHANGED den
(* another basis of the same lattice, a larger cell, and turning by the angle of (4, 3) *)
Same(p) == Use(Mul(p, b)) /\ UNCHANGED <<cells, turns>>
Larger(p) == Use(Mul(p, b)) /\ cells' = cells * Abs(Det(p)) /\ UNCHANGED turns
Turn(p, k) == Use(Mul(b, p)) /\ turns' = turns + k /\ UNCHANGED cells
Unimodular == { << <<0, 1>>, <<1, 0>> >>, << <<1, 1>>, <<0, 1>> >>, << <<1, 0>>, <<-1, 1>> >>, << <<-1, 0>>, <<0, 1>> >>, << <<1, 0>>, <<0, -1>> >> }
Enlarging == { << <<2, 0>>, <<0, 1>> >>, << <<1, 0>>, <<0, 3>> >>, << <<1, 1>>, <<-1, 1>> >> }
Next == \/ \E p \in Unimodular : Same(p)
        \/ \E p \in Enlarging : Larger(p)
        \/ turns < 1 /\ Turn(<< <<4, 3>>, <<-3, 4>> >>, 1)
        \/ Turn(<< <<0, 1>>, <<-1, 0>> >>, 0)
Spec == Init /\ [][Next]_vars
------------------------------------------------------------------------------
RECURSIVE Pow(_, _)
Pow(x, k) == IF k = 0 THEN 1 ELSE x * Pow(x, k - 1)
(* the area counts the cells of the lattice, whatever the basis (each turn is a scale by 5) *)
AreaOK == Abs(Det(b)) = cells * Pow(25, turns)
DualOK == /\ \A i, j \in 1..2 : Dot(b[i], Dual(b)[j]) = (IF i = j THEN Det(b) ELSE 0)
          /\ Det(Dual(b)) = Det(b)
(* dual bases of related bases are related: the dual of P B is the transposed inverse of P times that of B *)
ContraOK == \A p \in Unimodular : Mul(p, b) = b \/ LET d == Dual(Mul(p, b)) IN
              \A i, j \in 1..2 : Dot(Mul(p, b)[i], d[j]) = (IF i = j THEN Det(p) * Det(b) ELSE 0)
(* the point i, j of an n x m grid that covers the cell with its outline, over den (n - 1) (m - 1) *)
At(m, n, i, j) == LET p == IF n[1] = 1 THEN 1 ELSE n[1] - 1
                      q == IF n[2] = 1 THEN 1 ELSE n[2] - 1
                  IN << i * q * m[1][1] + j * p * m[2][1], i * q * m[1][2] + j * p * m[2][2] >>
CornersOK == \A n \in {<<2, 3>>, <<4, 2>>} :
  LET p == (n[1] - 1) * (n[2] - 1) IN
  /\ At(b, n, 0, 0) = <<0, 0>>
  /\ At(b, n, n[1] - 1, 0) = <<p * b[1][1], p * b[1][2]>> /\ At(b, n, 0, n[2] - 1) = <<p * b[2][1], p * b[2][2]>>
==============================================================================
