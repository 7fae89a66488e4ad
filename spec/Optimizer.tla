----------------------------- MODULE Optimizer -------------------------------
(* The schedule of the topology optimizer (C18).  Points and values are      *)
(* abstract: only their identity and order matter.                           *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES cfg,     \* [lo, hi, stop, cb, x0]: levels lo..hi-1, stop value, callback
          level, evals, \* evaluations of the level: <<point, value>>
          total, answer, \* evaluations so far; <<>> or <<point, value>>
          start, shown   \* where the level starts; evaluations shown to the callback
vars == <<cfg, level, evals, total, answer, start, shown>>
Last(q) == q[Len(q)]
Stopped == evals # <<>> /\ Last(evals)[2] < cfg.stop
(* a level evaluates its starting point first, then others, until it is over *)
Evaluate(x, v) == /\ answer = <<>> /\ ~Stopped /\ (evals = <<>> => x = start)
                  /\ \A k \in DOMAIN evals : evals[k][1] = x => evals[k][2] = v
                  /\ evals' = Append(evals, <<x, v>>) /\ total' = total + 1
                  /\ (cfg.cb => shown = total) /\ shown' = shown
                  /\ UNCHANGED <<cfg, level, answer, start>>
Show == /\ cfg.cb /\ shown < total /\ shown' = shown + 1 /\ UNCHANGED <<cfg, level, evals, total, answer, start>>
(* what a level may retain: the point that reached the stop value, else a    *)
(* point no worse than the start                                             *)
Retained == IF Stopped THEN {Last(evals)} ELSE {evals[k] : k \in {m \in DOMAIN evals : evals[m][2] <= evals[1][2]}}
Advance(e) == /\ answer = <<>> /\ evals # <<>> /\ (cfg.cb => shown = total) /\ e \in Retained
              /\ IF level + 1 < cfg.hi
                 THEN level' = level + 1 /\ start' = e[1] /\ evals' = <<>> /\ UNCHANGED answer
                 ELSE answer' = e /\ UNCHANGED <<level, start, evals>>
              /\ UNCHANGED <<cfg, total, shown>>
=============================================================================
