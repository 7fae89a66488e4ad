----------------------------- MODULE FormTrace -------------------------------
(* Validates what the formulations answer (C26).                             *)
EXTENDS Integers, Sequences, FiniteSets, Emit, IOUtils, Json
VARIABLES i, first
Medium == INSTANCE EffMedium WITH Values <- {}, Iso <- FALSE, MaxPoints <- 0, pts <- <<>>, sum <- <<>>, inv <- <<>>, along <- <<>>
Groove == INSTANCE Grooves WITH Dirs <- {}, MaxSteps <- 0, d <- <<>>, steps <- 0
Trace == ndJsonDeserialize(IOEnv.TRACE_DIR \o "/trace.ndjson")
ev == Trace[i]
Bad(clause) == Emit("BAD", [line |-> i, clause |-> clause])
Clause(name, ok) == IF ok THEN TRUE ELSE Bad(name)
Abs(x) == IF x < 0 THEN -x ELSE x
Close(a, b, tol) == Len(a) = Len(b) /\ \A k \in DOMAIN a : Abs(a[k] - b[k]) <= tol /\ Abs(a[k]) < 1000000000
None == <<>>
RuleOf(form) == IF form = "original" THEN "direct" ELSE "inverse"
(* one harmonic: the film of the effective permittivity eff that the driver was told to make *)
Film == /\ Clause("answers", ev.err = "")
        /\ Clause("the film is the one specified", ev.eff = Medium!EffOf(ev.pts, RuleOf(ev.form), ev.axis))
        /\ ev.err = "" => Clause("one harmonic of the pattern sees its effective permittivity", Close(ev.grating, ev.film, 20))
        /\ UNCHANGED first
(* first: the answers of the first description of each rule *)
Begin == first' = [direct |-> None, inverse |-> None]
Describe ==
  LET r == Groove!Rule(ev.d)
      ok == ev.err = ""
      tol == IF ev.d.src = "opt" /\ ev.d.dim = 2 /\ r = "inverse" THEN 20000 ELSE 30
  IN /\ Clause("answers", ok /\ Groove!WF(ev.d))
     /\ (ok /\ ev.clear) => /\ Clause("descriptions of one grating agree", first[r] = None \/ Close(ev.obs, first[r], tol))
                            /\ Clause("the rules agree for fields along the grooves", ~ev.tangential \/ first.direct = None \/ Close(ev.obs, first.direct, tol))
     /\ ok => /\ Clause("computed tangent fields follow the grooves", ev.tilt <= 20000)
              /\ Clause("the tangent field is of the type asked for", ev.typed)
     /\ first' = IF ok /\ ev.clear /\ first[r] = None THEN [first EXCEPT ![r] = ev.obs] ELSE first
(* smooth patterns and many harmonics: the formulations have one limit *)
Smooth == /\ Clause("answers", ev.err = "")
          /\ ev.err = "" => \A k \in DOMAIN ev.obs : Clause("the formulations have one limit", Close(ev.obs[k], ev.obs[1], ev.tol))
          /\ UNCHANGED first
(* computed tangent fields turn with the pattern *)
Turned == /\ Clause("answers", ev.err = "")
          /\ ev.err = "" => \A k \in DOMAIN ev.obs : Clause("a scene turned as a whole answers the same", Close(ev.obs[k], ev.obs[1], 100))
          /\ UNCHANGED first
Read == CASE ev.ev = "film" -> Film [] ev.ev = "begin" -> Begin [] ev.ev = "describe" -> Describe [] ev.ev = "smooth" -> Smooth [] ev.ev = "turned" -> Turned
Done == i = Len(Trace) => Emit("DONE", i)
TInit == i = 1 /\ first = [direct |-> None, inverse |-> None]
TNext == i <= Len(Trace) /\ Read /\ i' = i + 1 /\ Done
TSpec == TInit /\ [][TNext]_<<i, first>>
=============================================================================
