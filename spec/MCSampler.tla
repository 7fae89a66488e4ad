----------------------------- MODULE MCSampler -------------------------------
EXTENDS Sampler, Emit
CONSTANTS Starts, Vals, Pars
VARIABLES first, hist
mvars == <<vars, first, hist>>
Init == /\ first \in Starts /\ par \in Pars
        /\ xs = <<>> /\ val = <<>> /\ pending = first /\ status = "sampling" /\ hist = <<>>
Least(S) == CHOOSE y \in S : \A z \in S : y <= z
MNext == /\ \/ pending # {} /\ \E v \in Vals : Eval(Least(pending), v) /\ hist' = Append(hist, <<Least(pending), v>>)
            \/ (Decide \/ Round) /\ UNCHANGED hist
         /\ UNCHANGED first
Spec == Init /\ [][MNext]_mvars /\ WF_mvars(MNext)
KeepOK == status # "sampling" \/ pending = {} => (first \subseteq DOMAIN val)
(* midpoints are points of the grid, between the first ones *)
InsideOK == \A x \in DOMAIN val \cup pending : \E a, b \in first : a <= x /\ x <= b
NewOK == pending \cap DOMAIN val = {}
SortedOK == \A k \in 1..(Len(xs) - 1) : xs[k] < xs[k + 1]
(* no segment is cut below half the resolution *)
FloorOK == par.relx > 0 => \A k \in 1..(Len(xs) - 1) : (xs[k + 1] - xs[k]) * 2 * par.relx >= xs[Len(xs)] - xs[1] \/ {xs[k], xs[k + 1]} \subseteq first
Ends == <>(status # "sampling")
EmitRun == status = "done" => Emit("RUN", [first |-> first, par |-> par, calls |-> hist])
mcStarts == {{0, 4, 8}, {0, 4, 12}, {0, 4}, {0, 8, 12}}
mcVals == {0, 1, 4}
mcPars == {[bend |-> b, relx |-> 4, df |-> d] : b \in {60, 45}, d \in {0, 4}}
genStarts == {{0, 32, 64}, {0, 32, 64, 96}, {0, 32, 96}, {0, 64, 96, 128}, {0, 96, 128}, {0, 32, 64, 96, 128}, {0, 32, 128}, {-64, -32, 32, 64}, {0, 64}, {32}, {0, 96, 160, 192, 224}}
genVals == {-3, -2, -1, 0, 1, 2, 3}
genPars == {[bend |-> b, relx |-> r, df |-> d] : b \in {30, 45, 60, 90}, r \in {4, 8, 16}, d \in {0, 2, 4, 8}}
=============================================================================
