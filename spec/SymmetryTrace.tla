--------------------------- MODULE SymmetryTrace -----------------------------
(* Validates the efficiencies of the descriptions of one structure: the      *)
(* harmonic h of the structure is the harmonic O h of the description.       *)
EXTENDS Symmetry, Emit, IOUtils
CONSTANT Tol
VARIABLES i, ref
tvars == <<vars, i, ref>>
Trace == ndJsonDeserialize(IOEnv.TRACE_DIR \o "/trace.ndjson")
ev == Trace[i]
Bad(clause) == Emit("BAD", [line |-> i, clause |-> clause])
Clause(name, ok) == IF ok THEN TRUE ELSE Bad(name)
Near(a, b) == Abs(a - b) <= Tol
Hs(o) == {o[k].h : k \in DOMAIN o}
Table(o) == [h \in Hs(o) |-> o[CHOOSE k \in DOMAIN o : o[k].h = h]]
(* the description is one the specification allows *)
Legal == PeriodOK' /\ AreaOK' /\ PhaseOK'
Load == /\ n' = ev.n /\ m' = ev.m /\ A' = ev.A /\ t' = ev.t /\ O' = ev.O /\ turn' = ev.turn /\ flip' = ev.flip
        /\ scale' = ev.scale /\ steps' = (IF ev.ev = "structure" THEN 0 ELSE steps + 1) /\ g' = <<>>
Structure == /\ ev.ev = "structure" /\ Load /\ Clause("not a description of the structure", Legal)
             /\ Clause("no answer", ev.err = "")
             /\ ref' = [tab |-> Table(ev.obs), sum |-> ev.sum]
(* tab: what was observed; the images of the orders of the structure, and the others *)
Compare(tab) ==
  LET img == [h \in DOMAIN ref.tab |-> Ap(ev.O, h)]
      Im == {img[h] : h \in DOMAIN img}
  IN /\ Clause("the retained orders correspond", IF ev.explicit THEN Im \subseteq DOMAIN tab ELSE Im = DOMAIN tab)
     /\ \A h \in DOMAIN img : img[h] \in DOMAIN tab =>
          Clause("efficiencies of corresponding orders", Near(tab[img[h]].R, ref.tab[h].R) /\ Near(tab[img[h]].T, ref.tab[h].T))
     /\ \A k \in DOMAIN tab \ Im : Clause("orders outside the lattice of the structure are dark", Near(tab[k].R, 0) /\ Near(tab[k].T, 0))
     /\ Clause("total efficiencies", Near(ev.sum[1], ref.sum[1]) /\ Near(ev.sum[2], ref.sum[2]))
Describe == /\ ev.ev = "describe" /\ Load /\ Clause("not a description of the structure", ev.n = n /\ Legal)
            /\ IF ev.err # "" THEN Bad("no answer") ELSE Compare(Table(ev.obs))
            /\ UNCHANGED ref
Done == i = Len(Trace) => Emit("DONE", i)
TInit == i = 1 /\ n = <<1, 1>> /\ m = n /\ A = Id /\ t = <<0, 0>> /\ O = Id /\ turn = 0 /\ flip = 0 /\ scale = 0 /\ steps = 0 /\ g = <<>> /\ ref = [tab |-> <<>>, sum |-> <<0, 0>>]
TNext == /\ i <= Len(Trace) /\ (Structure \/ Describe) /\ i' = i + 1 /\ Done
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
