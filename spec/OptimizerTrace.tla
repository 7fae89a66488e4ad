--------------------------- MODULE OptimizerTrace ----------------------------
(* Validates the calls recorded during runs of the optimizer.                *)
EXTENDS Optimizer, Emit, IOUtils, Json
CONSTANT Unit
VARIABLES i, off
tvars == <<vars, i, off>>
Trace == ndJsonDeserialize(IOEnv.TRACE_DIR \o "/trace.ndjson")
ev == Trace[i]
Bad(clause) == Emit("BAD", [line |-> i, clause |-> clause])
Clause(name, ok) == IF ok THEN TRUE ELSE Bad(name)
Is(e) == i <= Len(Trace) /\ ev.ev = e /\ i' = i + 1
Skip(clause) == Bad(clause) /\ off' = TRUE /\ UNCHANGED vars
Start == /\ Is("start")
         /\ cfg' = [lo |-> ev.lo, hi |-> ev.hi, stop |-> ev.stop, cb |-> ev.cb, x0 |-> ev.x0, budget |-> ev.budget]
         /\ level' = ev.lo /\ evals' = <<>> /\ total' = 0 /\ answer' = <<>> /\ start' = ev.x0 /\ shown' = 0 /\ off' = FALSE
Power(n) == 2 ^ n
Inside(c) == \A k \in DOMAIN c : 0 <= c[k] /\ c[k] <= Unit
(* an evaluation of the present level, or the first one of the next *)
Moves == ev.proj = Power(level + 1) /\ evals # <<>> /\ level + 1 < cfg.hi
Fun == /\ Is("fun") /\ UNCHANGED <<cfg, answer, shown>>
       /\ IF off THEN UNCHANGED <<vars, off>>
          ELSE IF ev.proj # Power(level) /\ ~Moves THEN Skip("each level is optimized once, in order, with its projection parameter")
          ELSE IF ~Moves /\ Stopped THEN Skip("the stop value interrupts the level")
          ELSE LET from == IF Moves THEN {e[1] : e \in Retained} ELSE {start}
                   first == Moves \/ evals = <<>>
                   before == IF Moves THEN <<>> ELSE evals
               IN /\ first => Clause(IF Moves THEN "a level starts from the point retained from the previous one" ELSE "the first level starts from the initial point", ev.x \in from)
                  /\ Clause("evaluations stay within the bounds", Inside(ev.coords))
                  /\ Clause("the other arguments are unchanged", ev.same)
                  /\ cfg.cb => Clause("the callback sees every evaluation", shown = total)
                  /\ Clause("the budget of the level is kept", cfg.budget = 0 \/ Len(before) < cfg.budget)
                  /\ level' = (IF Moves THEN level + 1 ELSE level) /\ start' = (IF first THEN ev.x ELSE start)
                  /\ evals' = Append(before, <<ev.x, ev.y>>) /\ total' = total + 1 /\ UNCHANGED off
Cb == /\ Is("cb") /\ UNCHANGED <<cfg, level, evals, total, answer, start>>
      /\ IF off THEN UNCHANGED <<shown, off>>
         ELSE /\ Clause("the callback sees the evaluated point with its value", cfg.cb /\ shown = total - 1 /\ evals # <<>> /\ Last(evals) = <<ev.x, ev.y>>)
              /\ Clause("the callback sees the arguments of the evaluation", ev.same /\ ev.proj = Power(level))
              /\ shown' = total /\ UNCHANGED off
Grad == /\ Is("grad") /\ UNCHANGED <<vars, off>>
        /\ off \/ Clause("gradients are those of the present level", ev.same /\ (ev.proj = Power(level) \/ Moves))
End == /\ Is("end") /\ UNCHANGED vars /\ off' = TRUE
       /\ IF ev.err # "" THEN Bad("no answer")
          ELSE IF off THEN TRUE
          ELSE /\ Clause("every level was optimized", level = cfg.hi - 1 /\ evals # <<>>)
               /\ Clause("the point and value returned belong together and to the last level", <<ev.x, ev.y>> \in {evals[k] : k \in DOMAIN evals})
               /\ Clause("the answer is the point retained by the last level", <<ev.x, ev.y>> \in Retained)
               /\ Clause("evaluations are counted", ev.count = total)
               /\ Clause("the initial point and arguments are left alone", ev.kept)
               /\ cfg.cb => Clause("the callback sees every evaluation", shown = total)
Done == i = Len(Trace) => Emit("DONE", i)
TInit == i = 1 /\ off = TRUE /\ cfg = <<>> /\ level = 0 /\ evals = <<>> /\ total = 0 /\ answer = <<>> /\ start = 0 /\ shown = 0
TNext == (Start \/ Fun \/ Cb \/ Grad \/ End) /\ Done
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
