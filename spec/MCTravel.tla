------------------------------- MODULE MCTravel ------------------------------
(* Checks Travel; with histories on, prints every behaviour of MaxLen steps.  *)
EXTENDS Travel, Emit
CONSTANTS MaxLen, Hist
VARIABLE hist
hvars == <<vars, hist>>
HInit == Init /\ hist = <<>>
Step(op) == hist' = IF Hist THEN Append(hist, op) ELSE hist
Useful(g) == TRUE
HNext == /\ Hist => Len(hist) < MaxLen
         /\ \/ \E g \in Slots, S \in SUBSET Sims : Build(g, S) /\ Step(<<"build", g, S>>)
            \/ \E g \in Slots, l \in Layers, v \in Vers : Set(g, l, v) /\ Step(<<"set", g, l, v>>)
            \/ \E g, h \in Slots, S \in SUBSET Sims, k \in Kinds : Dup(g, h, S, k) /\ Step(<<"dup", g, h, S, k>>)
            \/ \E g \in Slots, s \in Sims : Ask(g, s) /\ Step(<<"ask", g, s>>)
            \/ \E g \in Slots : Drop(g) /\ Step(<<"drop", g>>)
         /\ (Hist /\ Len(hist') = MaxLen) => Emit("HIST", hist')
HSpec == HInit /\ [][HNext]_hvars
==============================================================================
