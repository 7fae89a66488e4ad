----------------------------- MODULE PlotTrace -------------------------------
(* Validates recorded drawings against Plot.                                  *)
EXTENDS Integers, Sequences, FiniteSets, Emit, IOUtils
CONSTANTS MaxLayers, Thick, Gaps, Nulls, MaxPeriods
VARIABLE i
P == INSTANCE Plot WITH layers <- <<>>, nper <- <<0, 0>>, dz <- 0, null <- 0, per <- <<0, 0>>, k <- 0, z <- 0, drawn <- {}
Trace == ndJsonDeserialize(IOEnv.TRACE_DIR \o "/trace.ndjson")
ev == Trace[i]
Bad(clause) == Emit("BAD", [line |-> i, clause |-> clause])
Clause(name, ok) == IF ok THEN TRUE ELSE Bad(name)
(* the points of a layer with a value, and its values *)
Points(lay) == {<<a, b>> : a \in DOMAIN lay.grid, b \in DOMAIN lay.grid[1]}
PointsOf(lay, v) == IF lay.grid = <<>> THEN {} ELSE {q \in Points(lay) : lay.grid[q[1]][q[2]] = v}
All(lay) == IF lay.grid = <<>> THEN {lay.eps} ELSE {lay.grid[q[1]][q[2]] : q \in Points(lay)}
Air == 1000
(* the values, in increasing order, numbered from 1 *)
Rank(lay, v) == IF lay.grid = <<>> THEN 0 ELSE Cardinality({w \in All(lay) : w < v}) + 1
Solid(c, j, v) == LET l == ev.layers[j]  top == P!TopOf(ev.layers, ev.null, ev.dz, j)
                  IN [per |-> c, z0 |-> top, z1 |-> top + P!D(ev.layers, ev.null, j), val |-> v, pts |-> PointsOf(l, v),
                      style |-> IF ev.styled = 0 THEN <<0, 0>> ELSE <<j, Rank(l, v)>>]
Wanted == UNION {{Solid(c, j, v) : c \in P!Cells(ev.nper), v \in All(ev.layers[j]) \ {Air}} : j \in DOMAIN ev.layers}
Got == {[per |-> s.per, z0 |-> s.z0, z1 |-> s.z1, val |-> s.val, pts |-> {s.pts[q] : q \in DOMAIN s.pts}, style |-> s.style] : s \in {ev.drawn[q] : q \in DOMAIN ev.drawn}}
Place(S) == {[per |-> s.per, z0 |-> s.z0, z1 |-> s.z1] : s \in S}
NoStyle(S) == {[per |-> s.per, z0 |-> s.z0, z1 |-> s.z1, val |-> s.val, pts |-> s.pts] : s \in S}
Structure ==
  /\ ev.ev = "structure"
  /\ IF ev.err # "" THEN Bad("no picture")
     ELSE /\ Clause("each layer of each period is at its place", Place(Got) = Place(Wanted))
          /\ Clause("solids show the pattern", NoStyle(Got) = NoStyle(Wanted))
          /\ Clause("each solid is drawn once", Cardinality(Got) = Len(ev.drawn))
          /\ Clause("each solid has the style given to it", Got = Wanted)
(* the picture of a layer: periods, and the values shown at the points       *)
LayerPlot ==
  /\ ev.ev = "layer"
  /\ IF ev.err # "" THEN Bad("no picture")
     ELSE /\ Clause("one picture per period", {ev.offsets[q] : q \in DOMAIN ev.offsets} = P!Cells(ev.nper) /\ Len(ev.offsets) = ev.nper[1] * ev.nper[2])
          /\ Clause("values are shown at their points", \A q \in DOMAIN ev.shown : ev.shown[q] = ev.grid)
          /\ Clause("the points are those of the lattice", ev.placed = 1)
          /\ Clause("the cell shown is the unit cell", {ev.cell[q] : q \in DOMAIN ev.cell} =
                      IF ev.show = 0 THEN {} ELSE {<<<<0, 0>>, <<1, 0>>>>, <<<<1, 0>>, <<1, 1>>>>, <<<<0, 0>>, <<0, 1>>>>, <<<<0, 1>>, <<1, 1>>>>})
Done == i = Len(Trace) => Emit("DONE", i)
TInit == i = 1
TNext == i <= Len(Trace) /\ (Structure \/ LayerPlot) /\ i' = i + 1 /\ Done
TSpec == TInit /\ [][TNext]_i
==============================================================================
