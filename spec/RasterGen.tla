----------------------------- MODULE RasterGen -------------------------------
(* Draws shapes on lattices, one choice after the other.                     *)
EXTENDS Raster, Emit
VARIABLES u, N, s, step
vars == <<u, N, s, step>>
Bases == { << <<10, 0>>, <<0, 10>> >>, << <<10, 0>>, <<5, 9>> >>, << <<12, 3>>, <<-2, 8>> >>, << <<8, 6>>, <<-6, 8>> >>, << <<0, 10>>, <<10, 0>> >>,
           << <<10, 0>>, <<-4, 7>> >>, << <<9, 1>>, <<2, 11>> >>, << <<14, 0>>, <<0, 6>> >>, << <<6, -5>>, <<5, 7>> >> }
Discs == { <<8, 8>>, <<11, 6>>, <<7, 13>>, <<16, 16>>, <<15, 10>>, <<2, 2>>, <<9, 1>>, <<1, 12>>, <<3, 16>>, <<13, 12>> }
Kinds == {"polygon", "region", "rectangle", "square", "circle", "ellipse", "stripe"}
Turns == { <<1, 0, 1>>, <<3, 4, 5>>, <<4, 3, 5>>, <<0, 1, 1>>, <<-3, 4, 5>>, <<4, -3, 5>>, <<-1, 0, 1>>, <<12, 5, 13>>, <<5, -12, 13>> }
(* outlines that are not convex *)
Templates == << << << <<0, 0>>, <<3, 0>>, <<3, 1>>, <<1, 1>>, <<1, 3>>, <<0, 3>> >> >>,
                << << <<0, 0>>, <<5, 0>>, <<5, 3>>, <<4, 3>>, <<4, 1>>, <<1, 1>>, <<1, 3>>, <<0, 3>> >> >>,
                << << <<0, 0>>, <<7, 0>>, <<7, 3>>, <<6, 3>>, <<6, 1>>, <<4, 1>>, <<4, 3>>, <<3, 3>>, <<3, 1>>, <<1, 1>>, <<1, 3>>, <<0, 3>> >> >>,
                << << <<0, 0>>, <<4, 0>>, <<4, 4>>, <<1, 4>>, <<1, 2>>, <<2, 2>>, <<2, 3>>, <<3, 3>>, <<3, 1>>, <<0, 1>> >> >> >>
(* with a hole, two islands, a ring around an island *)
Regions == << << << <<0, 0>>, <<4, 0>>, <<4, 4>>, <<0, 4>> >>, << <<1, 1>>, <<3, 1>>, <<2, 3>> >> >>,
              << << <<0, 0>>, <<1, 0>>, <<1, 4>>, <<0, 4>> >>, << <<3, 0>>, <<5, 0>>, <<5, 2>>, <<3, 2>> >> >>,
              << << <<0, 0>>, <<6, 0>>, <<6, 6>>, <<0, 6>> >>, << <<1, 1>>, <<5, 1>>, <<5, 5>>, <<1, 5>> >>, << <<2, 2>>, <<4, 2>>, <<4, 4>>, <<2, 4>> >> >> >>
Maps == { << <<1, 0>>, <<0, 1>> >>, << <<2, 0>>, <<0, 1>> >>, << <<1, 1>>, <<0, 1>> >>, << <<2, 1>>, <<-1, 2>> >>, << <<0, -2>>, <<2, 0>> >>, << <<3, 0>>, <<1, 2>> >>, << <<0, 1>>, <<1, 0>> >> }
Offsets == { <<0, 0>>, <<1, 2>>, <<3, 1>>, <<-2, -1>>, <<5, 4>>, <<7, -3>>, <<-4, 3>> }
Move(v, P, o) == << P[1][1] * v[1] + P[1][2] * v[2] + o[1], P[2][1] * v[1] + P[2][2] * v[2] + o[2] >>
Image(rings, P, o) == [r \in DOMAIN rings |-> [k \in DOMAIN rings[r] |-> Move(rings[r][k], P, o)]]
(* star-shaped polygons: a radius for each direction, no half turn without one *)
Dirs == << <<1, 0>>, <<2, 1>>, <<1, 2>>, <<0, 1>>, <<-1, 2>>, <<-2, 1>>, <<-1, 0>>, <<-2, -1>>, <<-1, -2>>, <<0, -1>>, <<1, -2>>, <<2, -1>> >>
NoGap(q) == \A k \in 1..12 : \E d \in 0..4 : q[1 + ((k + d) % 12)] > 0
Outline(q, o) == LET ks == {k \in 1..12 : q[k] > 0}
                     nth(m) == CHOOSE k \in ks : Cardinality({x \in ks : x < k}) = m - 1
                 IN [m \in 1..Cardinality(ks) |-> << o[1] + q[nth(m)] * Dirs[nth(m)][1], o[2] + q[nth(m)] * Dirs[nth(m)][2] >>]
None == [kind |-> "", rings |-> <<>>, c |-> <<0, 0>>, w |-> <<1, 1>>, rot |-> <<1, 0, 1>>]
Init == u = << <<10, 0>>, <<0, 10>> >> /\ N = <<8, 8>> /\ s = None /\ step = 0
Choice == CASE step = 0 -> u' \in Bases /\ UNCHANGED <<N, s>>
            [] step = 1 -> N' \in Discs /\ UNCHANGED <<u, s>>
            [] step = 2 -> (\E k \in Kinds : s' = [s EXCEPT !.kind = k]) /\ UNCHANGED <<u, N>>
            [] step = 3 -> UNCHANGED <<u, N>> /\
                 (CASE s.kind = "region" -> \E r \in DOMAIN Regions, P \in Maps, o \in Offsets : s' = [s EXCEPT !.rings = Image(Regions[r], P, o)]
                   [] s.kind = "polygon" -> \/ \E r \in DOMAIN Templates, P \in Maps, o \in Offsets : s' = [s EXCEPT !.rings = Image(Templates[r], P, o)]
                                            \/ \E o \in Offsets, a, b, c, d \in 0..2, e \in 0..1 :
                                                 LET q == << a, b, e, c, 0, d, b, c, a, e, d, 1 >> IN NoGap(q) = TRUE /\ s' = [s EXCEPT !.rings = << Outline(q, << o[1] + 3, o[2] + 3 >>) >>]
                   [] OTHER -> \E x \in -2..10, y \in -2..9 : s' = [s EXCEPT !.c = <<x, y>>])
            [] step = 4 -> UNCHANGED <<u, N>> /\ IF s.kind \in {"region", "polygon"} THEN s' = s ELSE \E a, b \in 1..(IF s.kind = "ellipse" THEN 4 ELSE 9) : s' = [s EXCEPT !.w = <<a, b>>]
            [] step = 5 -> UNCHANGED <<u, N>> /\ IF s.kind \in {"rectangle", "square", "ellipse"} THEN \E c \in Turns : (s.kind = "ellipse" => c[3] < 13) /\ s' = [s EXCEPT !.rot = c] ELSE s' = s
Next == step < 6 /\ step' = step + 1 /\ Choice
Spec == Init /\ [][Next]_vars
EmitShape == step = 6 => Emit("SHAPE", [u |-> u, N |-> N, s |-> s])
=============================================================================
