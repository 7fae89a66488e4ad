----------------------------- MODULE MCSpectrum ------------------------------
(* All small patterns and sets of harmonics; edits of the pattern.           *)
EXTENDS Spectrum, Emit
CONSTANTS Sizes, Values, Edits
VARIABLES N, H, g, edits
vars == <<N, H, g, edits>>
(* twice a retained harmonic must stay below the number of points *)
Centred(M) == {h \in (-1..1) \X (-1..1) : (M[1] < 4 => h[1] = 0) /\ (M[2] < 4 => h[2] = 0)}
Init == /\ N \in Sizes /\ H \in {S \cup {<<0, 0>>} : S \in SUBSET Centred(N)}
        /\ g = [x \in Box(N) |-> <<1, 0>>] /\ edits = 0
Edit == /\ edits < Edits /\ edits' = edits + 1 /\ \E x \in Box(N), v \in Values : g' = [g EXCEPT ![x] = v]
        /\ UNCHANGED <<N, H>>
Next == Edit
Spec == Init /\ [][Next]_vars
Lim == Limited(g, N, H)
Total(f) == SumOver(f, Box(N), N, <<0, 0>>)
Area == N[1] * N[2]
(* the mean is kept *)
MeanOK == Total(Lim) = Times(Area, Total(g))
(* limiting twice changes nothing *)
OnceOK == LET l == Lim IN Limited(l, N, H) = [x \in Box(N) |-> Times(Area, l[x])]
(* nothing is lost when every harmonic of the grid is retained *)
FullOK == LET F == Box(N) IN Limited(g, N, F) = [x \in F |-> Times(Area, g[x])]
(* translating the pattern translates the answer *)
ShiftOK == LET s == [x \in Box(N) |-> g[Mod(<<x[1] + 1, x[2] + 1>>, N)]]
               l == Lim
           IN Limited(s, N, H) = [x \in Box(N) |-> l[Mod(<<x[1] + 1, x[2] + 1>>, N)]]
(* a real pattern stays real when opposite harmonics are retained together *)
RealOK == (\A x \in Box(N) : g[x][2] = 0) /\ (\A h \in H : <<-h[1], -h[2]>> \in H) => \A x \in Box(N) : Lim[x][2] = 0
EmitPattern == edits = Edits => Emit("PATTERN", [N |-> N, H |-> H, g |-> [a \in 1..N[1] |-> [b \in 1..N[2] |-> g[<<a - 1, b - 1>>]]]])
mcSizes == {<<4, 1>>, <<4, 2>>, <<2, 4>>}
genSizes == {<<4, 1>>, <<4, 4>>}
mcValues == {<<2, 0>>, <<0, 1>>, <<3, -1>>}
genValues == {<<2, 0>>, <<5, 0>>, <<3, 1>>, <<2, -1>>, <<-4, 2>>, <<7, 0>>, <<1, 3>>}
=============================================================================
