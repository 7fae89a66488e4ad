------------------------------ MODULE Quadtree -------------------------------
(* The subdivision that fills a mask (C14): a box of grid points is decided  *)
(* at once when its hull is outside or inside the shape, and is cut in       *)
(* halves otherwise.  Grid points are 4 apart and the sides of shapes fall   *)
(* between them, so that integer points represent the plane exactly.         *)
EXTENDS Integers, FiniteSets, Sequences
CONSTANTS MaxN,       \* largest grid
          Corners     \* fault: a box is judged by its corners alone
VARIABLES n1, n2, shape, todo, mask
vars == <<n1, n2, shape, todo, mask>>
Coord == -2..(4 * MaxN)
Side == {x \in Coord : x % 4 = 2}
In(x, y) == \E r \in shape : r[1] <= x /\ x <= r[2] /\ r[3] <= y /\ y <= r[4]
Hull(b) == (4 * b[1]..4 * b[2]) \X (4 * b[3]..4 * b[4])
Probe(b) == IF Corners THEN {4 * b[1], 4 * b[2]} \X {4 * b[3], 4 * b[4]} ELSE Hull(b)
Touches(b) == \E p \in Probe(b) : In(p[1], p[2])
Covers(b) == \A p \in Probe(b) : In(p[1], p[2])
Cells(b) == (b[1]..b[2]) \X (b[3]..b[4])
Rects == {r \in Side \X Side \X Side \X Side : r[1] < r[2] /\ r[3] < r[4]}
Init == /\ n1 \in 1..MaxN /\ n2 \in 1..MaxN
        /\ shape \in {{r} : r \in Rects} \cup {{r, s} : r \in {q \in Rects : q[2] - q[1] = 4}, s \in {q \in Rects : q[4] - q[3] = 4}}
        /\ todo = {<<0, n1 - 1, 0, n2 - 1>>}
        /\ mask = [p \in (0..(n1 - 1)) \X (0..(n2 - 1)) |-> 2]
Mid(a, b) == a + (b - a + 1) \div 2
Halves(a, b) == IF a = b THEN {<<a, b>>} ELSE {<<a, Mid(a, b) - 1>>, <<Mid(a, b), b>>}
(* the boxes are independent of one another: any order will do *)
Visit == LET b == CHOOSE x \in todo : TRUE
         IN IF ~Touches(b) THEN mask' = [p \in DOMAIN mask |-> IF p \in Cells(b) THEN 0 ELSE mask[p]] /\ todo' = todo \ {b}
            ELSE IF Covers(b) THEN mask' = [p \in DOMAIN mask |-> IF p \in Cells(b) THEN 1 ELSE mask[p]] /\ todo' = todo \ {b}
            ELSE /\ todo' = (todo \ {b}) \cup {<<h[1], h[2], v[1], v[2]>> : h \in Halves(b[1], b[2]), v \in Halves(b[3], b[4])}
                 /\ UNCHANGED mask
Next == todo # {} /\ Visit /\ UNCHANGED <<n1, n2, shape>>
Spec == Init /\ [][Next]_vars
RightOK == \A p \in DOMAIN mask : mask[p] # 2 => mask[p] = (IF In(4 * p[1], 4 * p[2]) THEN 1 ELSE 0)
OnceOK == \A p \in DOMAIN mask : mask[p] = 2 <=> \E b \in todo : p \in Cells(b)
AllOK == todo = {} => \A p \in DOMAIN mask : mask[p] # 2
=============================================================================
