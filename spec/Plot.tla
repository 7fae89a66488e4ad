-------------------------------- MODULE Plot ---------------------------------
(* The drawing of a stack (C28).  A pen goes through the periods and, in each *)
(* one, down the layers: layers of the permittivity of air are left out,      *)
(* layers of zero thickness get a given (or the largest) one, dz separates    *)
(* the layers, patterned layers are drawn as one solid per value.             *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS MaxLayers, Thick, Gaps, Nulls, MaxPeriods
VARIABLES layers, \* <<[kind, d]>>, from the first
          nper, dz, null, \* null: 0 when not given
          per, k, z, drawn
vars == <<layers, nper, dz, null, per, k, z, drawn>>
Kinds == {"air", "plain", "pattern", "holes"}
Uniform == {"air", "plain"}
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
Default(L, n) == IF n # 0 THEN n ELSE Max({L[j].d : j \in DOMAIN L})
D(L, n, j) == IF L[j].d = 0 THEN Default(L, n) ELSE L[j].d
(* the top of each layer *)
RECURSIVE TopOf(_, _, _, _)
TopOf(L, n, g, j) == IF j = 1 THEN 0 ELSE TopOf(L, n, g, j - 1) + D(L, n, j - 1) + g
Cells(np) == (0..(np[1] - 1)) \X (0..(np[2] - 1))
(* values shown of a kind of layer: holes are of air *)
Values(kind) == CASE kind = "air" -> {} [] kind = "plain" -> {1} [] kind = "pattern" -> {1, 2} [] kind = "holes" -> {2}
(* the solids a drawing must show *)
Solids(L, np, g, n) == {[per |-> c, layer |-> j, val |-> v, z0 |-> TopOf(L, n, g, j), z1 |-> TopOf(L, n, g, j) + D(L, n, j)] :
                          c \in Cells(np), j \in DOMAIN L, v \in {1, 2}}
Shown(L, np, g, n) == {s \in Solids(L, np, g, n) : s.val \in Values(L[s.layer].kind)}
------------------------------------------------------------------------------
Init == /\ layers \in UNION {[1..n -> [kind : Kinds, d : Thick]] : n \in 2..MaxLayers}
        /\ layers[1].kind \in Uniform /\ layers[Len(layers)].kind \in Uniform \* the outer media have no pattern
        /\ nper \in (1..MaxPeriods) \X (1..MaxPeriods) /\ dz \in Gaps /\ null \in Nulls
        /\ Default(layers, null) > 0
        /\ per = <<0, 0>> /\ k = 1 /\ z = 0 /\ drawn = {}
Draw == /\ per[1] < nper[1] /\ k <= Len(layers)
        /\ drawn' = drawn \cup {[per |-> per, layer |-> k, val |-> v, z0 |-> z, z1 |-> z + D(layers, null, k)] : v \in Values(layers[k].kind)}
        /\ z' = z + D(layers, null, k) + dz /\ k' = k + 1
        /\ UNCHANGED <<layers, nper, dz, null, per>>
NextPeriod == /\ per[1] < nper[1] /\ k = Len(layers) + 1
              /\ per' = (IF per[2] + 1 < nper[2] THEN <<per[1], per[2] + 1>> ELSE <<per[1] + 1, 0>>)
              /\ k' = 1 /\ z' = 0 /\ UNCHANGED <<layers, nper, dz, null, drawn>>
Next == Draw \/ NextPeriod
Spec == Init /\ [][Next]_vars
------------------------------------------------------------------------------
Finished == per[1] = nper[1]
(* what is drawn is what must be shown *)
DrawnOK == Finished => drawn = Shown(layers, nper, dz, null)
(* solids of different layers never share a place, all of one layer are together *)
ApartOK == \A a, b \in drawn : (a.layer < b.layer) => a.z1 + dz <= b.z0
SamePlaceOK == \A a, b \in drawn : a.layer = b.layer => a.z0 = b.z0 /\ a.z1 = b.z1
SolidOK == \A a \in drawn : a.z0 < a.z1
==============================================================================
