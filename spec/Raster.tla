------------------------------- MODULE Raster --------------------------------
(* Shapes on the grid of a lattice (C14), in exact integers.                 *)
(*                                                                           *)
(* Lengths are integers; the point (i, j) of a grid of N1 x N2 points of the *)
(* cell (u1, u2), both ends included, multiplied by D = (N1-1)(N2-1) is      *)
(* i (N2-1) u1 + j (N1-1) u2.  Verdict says of a point whether the shape     *)
(* contains it: "in", "out", or "any" on the outline.                        *)
EXTENDS Integers, Sequences, FiniteSets
Abs(x) == IF x < 0 THEN -x ELSE x
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a < b THEN b ELSE a
Ends(N) == Max2(N - 1, 1)
Den(N) == Ends(N[1]) * Ends(N[2])
Point(u, N, i, j) == << i * Ends(N[2]) * u[1][1] + j * Ends(N[1]) * u[2][1], i * Ends(N[2]) * u[1][2] + j * Ends(N[1]) * u[2][2] >>
---------------------------------------------------------------------------
(* rings of vertices: even-odd rule *)
Cross(a, b, p) == (b[1] - a[1]) * (p[2] - a[2]) - (b[2] - a[2]) * (p[1] - a[1])
OnEdge(a, b, p) == /\ Min2(a[1], b[1]) <= p[1] /\ p[1] <= Max2(a[1], b[1]) /\ Min2(a[2], b[2]) <= p[2] /\ p[2] <= Max2(a[2], b[2])
                   /\ Cross(a, b, p) = 0
Passes(a, b, p) == (a[2] > p[2]) # (b[2] > p[2]) /\ (IF b[2] > a[2] THEN Cross(a, b, p) > 0 ELSE Cross(a, b, p) < 0)
Nxt(q, k) == q[IF k = Len(q) THEN 1 ELSE k + 1]
Times(D, v) == << D * v[1], D * v[2] >>
Rings(rings, D, p) ==
  IF \E r \in DOMAIN rings : \E k \in DOMAIN rings[r] : OnEdge(Times(D, rings[r][k]), Times(D, Nxt(rings[r], k)), p) THEN "any"
  ELSE IF Cardinality({rk \in {<<r, k>> : r \in DOMAIN rings, k \in 1..20} :
                         rk[2] \in DOMAIN rings[rk[1]] /\ Passes(Times(D, rings[rk[1]][rk[2]]), Times(D, Nxt(rings[rk[1]], rk[2])), p)}) % 2 = 1
       THEN "in" ELSE "out"
(* coordinates along the axes turned by the angle of cosine c[1]/c[3] and    *)
(* sine c[2]/c[3], times c[3] *)
Along(c, dx, dy) == << c[1] * dx + c[2] * dy, c[1] * dy - c[2] * dx >>
Side(x, lim) == IF x < lim THEN "in" ELSE IF x > lim THEN "out" ELSE "any"
Rect(center, w, c, D, p) ==
  LET q == Along(c, p[1] - D * center[1], p[2] - D * center[2])
      a == Side(2 * Abs(q[1]), w[1] * c[3] * D)
      b == Side(2 * Abs(q[2]), w[2] * c[3] * D)
  IN IF a = "out" \/ b = "out" THEN "out" ELSE IF a = "in" /\ b = "in" THEN "in" ELSE "any"
(* curved outlines are polygons inscribed in the curve: up to 1/100 in area *)
Curved(q, lim) == IF q > lim THEN "out" ELSE IF q < lim - (lim \div 100) THEN "in" ELSE "any"
Circle(center, r, D, p) ==
  LET dx == p[1] - D * center[1]
      dy == p[2] - D * center[2]
  IN IF Abs(dx) > r * D \/ Abs(dy) > r * D THEN "out" ELSE Curved(dx * dx + dy * dy, r * r * D * D)
Ellipse(center, r, c, D, p) ==
  LET q == Along(c, p[1] - D * center[1], p[2] - D * center[2])
  IN IF Abs(q[1]) > c[3] * r[1] * D \/ Abs(q[2]) > c[3] * r[2] * D THEN "out"
     ELSE Curved(q[1] * q[1] * r[2] * r[2] + q[2] * q[2] * r[1] * r[1], c[3] * c[3] * r[1] * r[1] * r[2] * r[2] * D * D)
Stripe(x, w, D, p) == Side(2 * Abs(p[1] - D * x), w * D)
(* s: [kind, rings, c, w, rot] *)
Verdict(s, D, p) ==
  CASE s.kind \in {"polygon", "region"} -> Rings(s.rings, D, p)
    [] s.kind = "rectangle" -> Rect(s.c, s.w, s.rot, D, p)
    [] s.kind = "square" -> Rect(s.c, <<s.w[1], s.w[1]>>, s.rot, D, p)
    [] s.kind = "circle" -> Circle(s.c, s.w[1], D, p)
    [] s.kind = "ellipse" -> Ellipse(s.c, s.w, s.rot, D, p)
    [] s.kind = "stripe" -> Stripe(s.c[1], s.w[1], D, p)
=============================================================================
