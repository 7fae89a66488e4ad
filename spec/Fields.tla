------------------------------- MODULE Fields --------------------------------
(* Field accessors (C12).                                                    *)
(*                                                                           *)
(* The field of a layer is a table u[depth][field][component][harmonic] of   *)
(* complex numbers.  Every accessor answers with a view of that table: a     *)
(* choice of depths, fields and components, in Fourier space or summed on a  *)
(* grid.  On grids of 1, 2 or 4 points the Fourier sums have fourth roots of *)
(* unity as coefficients, so they are exact over the Gaussian integers.      *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Harms,    \* sequence of harmonics <<h1, h2>>
          Depths,   \* number of depths in the table
          Comps,    \* number of components
          Grids,    \* set of grid shapes <<n1, n2>>, divisors of 4
          Ids,      \* ways to name a layer
          Vals      \* values of amplitudes in the abstract tables
VARIABLES u, req, ans
vars == <<u, req, ans>>
Fld == {"E", "H"}
Zs == {<<1>>, <<2>>, <<2, 1>>, <<1, 2, 3>>, <<3, 3>>}
(* how several depths may be given *)
Zhow == {"scalar", "list", "array"}
Requests == {x \in [id : Ids, zs : Zs, zhow : Zhow, fld : {"E", "H", "all"}, comp : 0..Comps, grid : Grids \cup {<<0, 0>>}] :
               /\ (x.zhow = "scalar" => Len(x.zs) = 1)
               /\ \A n \in DOMAIN x.zs : x.zs[n] <= Depths
               (* the Fourier accessor returns all fields and components *)
               /\ (x.grid = <<0, 0>> => x.fld = "all" /\ x.comp = 0)}
(* i^k (re, im) *)
Turn(z, k) == LET m == k % 4 IN IF m = 0 THEN z ELSE IF m = 1 THEN <<-z[2], z[1]>> ELSE IF m = 2 THEN <<-z[1], -z[2]>> ELSE <<z[2], -z[1]>>
RECURSIVE Sum(_, _, _, _, _)
Sum(a, hs, g, p, n) == IF n = 0 THEN <<0, 0>>
                       ELSE LET h == hs[n]
                                t == Turn(a[n], (4 \div g[1]) * h[1] * p[1] + (4 \div g[2]) * h[2] * p[2])
                                s == Sum(a, hs, g, p, n - 1)
                            IN <<s[1] + t[1], s[2] + t[2]>>
(* value on the grid point p (0-based) of the grid g of the amplitudes a     *)
At(a, hs, g, p) == Sum(a, hs, g, p, Len(hs))
FieldsOf(x) == IF x.fld = "all" THEN <<"E", "H">> ELSE <<x.fld>>
CompsOf(x) == IF x.comp = 0 THEN [c \in 1..Comps |-> c] ELSE <<x.comp>>
(* the view: out[field][component][x][y][depth], or the table for <<0, 0>>   *)
View(x, tab, hs) ==
  IF x.grid = <<0, 0>> THEN [k \in DOMAIN x.zs |-> tab[x.zs[k]]]
  ELSE [f \in DOMAIN FieldsOf(x) |-> [c \in DOMAIN CompsOf(x) |-> [px \in 1..x.grid[1] |-> [py \in 1..x.grid[2] |-> [k \in DOMAIN x.zs |->
         At(tab[x.zs[k]][FieldsOf(x)[f]][CompsOf(x)[c]], hs, x.grid, <<px - 1, py - 1>>)]]]]]
Tables == [1..Depths -> [Fld -> [1..Comps -> [DOMAIN Harms -> Vals]]]]
NoReq == [grid |-> <<-1, -1>>]
Init == u \in Tables /\ req = NoReq /\ ans = <<>>
Ask(x) == req' = x /\ ans' = View(x, u, Harms) /\ UNCHANGED u
Next == req = NoReq /\ \E x \in Requests : Ask(x)
Spec == Init /\ [][Next]_vars
---------------------------------------------------------------------------
Asked == req # NoReq
Real == Asked /\ req.grid # <<0, 0>>
(* one component, one field or one depth is a slice of the whole             *)
SliceOK == Real => LET all == View([req EXCEPT !.fld = "all", !.comp = 0], u, Harms)
                   IN \A f \in DOMAIN FieldsOf(req), c \in DOMAIN CompsOf(req) :
                        ans[f][c] = all[IF FieldsOf(req)[f] = "E" THEN 1 ELSE 2][CompsOf(req)[c]]
DepthOK == Real => \A k \in DOMAIN req.zs :
             LET one == View([req EXCEPT !.zs = <<req.zs[k]>>], u, Harms)
             IN \A f \in DOMAIN ans, c \in DOMAIN ans[1], x \in 1..req.grid[1], y \in 1..req.grid[2] : ans[f][c][x][y][k] = one[f][c][x][y][1]
(* however the layer is named and the depths are given *)
IdOK == Asked => \A j \in Ids : View([req EXCEPT !.id = j], u, Harms) = ans
(* the origin is the sum of the amplitudes; a coarse grid is part of a finer one *)
OriginOK == Real => \A f \in DOMAIN ans, c \in DOMAIN ans[1] : ans[f][c][1][1][1] = At(u[req.zs[1]][FieldsOf(req)[f]][CompsOf(req)[c]], Harms, <<1, 1>>, <<0, 0>>)
CoarseOK == Real /\ req.grid[1] = 2 => LET fine == View([req EXCEPT !.grid = <<4, req.grid[2]>>], u, Harms)
                                       IN \A f \in DOMAIN ans, c \in DOMAIN ans[1] : ans[f][c][2] = fine[f][c][3]
=============================================================================
