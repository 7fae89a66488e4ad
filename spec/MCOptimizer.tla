---------------------------- MODULE MCOptimizer ------------------------------
EXTENDS Optimizer, Emit
CONSTANTS Points, Vals, MaxEvals
VARIABLE levels
mvars == <<vars, levels>>
Init == /\ cfg \in [lo : 0..1, hi : 1..3, stop : {-1, 1, 9}, cb : BOOLEAN, x0 : Points] /\ cfg.lo < cfg.hi
        /\ level = cfg.lo /\ evals = <<>> /\ total = 0 /\ answer = <<>> /\ start = cfg.x0 /\ shown = 0 /\ levels = <<>>
Next == \/ Len(evals) < MaxEvals /\ \E x \in Points, v \in Vals : Evaluate(x, v) /\ levels' = (IF evals = <<>> THEN Append(levels, level) ELSE levels)
        \/ Show /\ UNCHANGED levels
        \/ \E e \in {evals[k] : k \in DOMAIN evals} : Advance(e) /\ UNCHANGED levels
Spec == Init /\ [][Next]_mvars /\ WF_mvars(Next)
(* every level once, in order *)
LevelsOK == levels = [k \in 1..Len(levels) |-> cfg.lo + k - 1] /\ (answer # <<>> => Len(levels) = cfg.hi - cfg.lo)
(* the answer is a point of the last level with its value *)
AnswerOK == answer # <<>> => answer \in {evals[k] : k \in DOMAIN evals} /\ answer[2] <= evals[1][2]
(* a stop value that was reached in the last level is reached by the answer *)
StopOK == answer # <<>> /\ Stopped => answer[2] < cfg.stop
ShownOK == shown <= total /\ (answer # <<>> /\ cfg.cb => shown = total)
EndsOK == <>(answer # <<>> \/ Len(evals) = MaxEvals)
(* configurations of runs of the real optimizer *)
Methods == {"scipy", "nlopt"}
Run == [method : Methods, lo : 0..2, levels : 1..4, stop : {"none", "start", "easy", "hard"}, cb : BOOLEAN, nvar : {1, 2, 5}, args : 0..2, maxiter : {1, 2, 5, 20}, fun : 1..5]
=============================================================================
