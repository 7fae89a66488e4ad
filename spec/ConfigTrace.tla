---------------------------- MODULE ConfigTrace ----------------------------
(* Validates a recorded session of selections against Config.  The           *)
(* environment of the session is given by the constants.                     *)
EXTENDS Config, Emit, IOUtils
VARIABLE i
tvars == <<vars, i>>
Trace == ndJsonDeserialize(IOEnv.TRACE_DIR \o "/trace.ndjson")
ev == Trace[i]
Is(name) == i <= Len(Trace) /\ ev.op[1] = name
Bad(clause) == Emit("BAD", [line |-> i, clause |-> clause])
Clause(name, ok) == IF ok THEN TRUE ELSE Bad(name)
(* the observation made after the step, against the state after the step *)
Observed ==
  /\ Clause("reported backend", ev.backend = sel')
  /\ Clause("reported device", ev.device = "cpu")
  /\ Clause("reported types", ev.types = <<FloatType', ComplexType'>>)
  /\ Clause("log level", ev.level = log')
  /\ Clause("one log handler", ev.handlers = 1)
  /\ Clause("rejection", ev.rejected = rejected')
  /\ (ev.probe = 1 =>
      IF ev.err # "" THEN Bad("simulation does not run")
      ELSE /\ Clause("one library throughout", \A k \in DOMAIN ev.libs : ev.libs[k] = Lib')
           /\ Clause("one precision throughout", \A k \in DOMAIN ev.dtypes : ev.dtypes[k] \in {FloatType', ComplexType'})
           /\ Clause("results", IF prec' = 64 THEN ev.off <= 100 ELSE ev.off <= 20000000)
           /\ Clause("differentiation", (ev.grad = 1) = Differentiates'))
Step == \/ Is("backend") /\ SetBackend(ev.op[2])
        \/ Is("use32") /\ Use32(ev.op[2])
        \/ Is("gpu") /\ UseGpu(ev.op[2])
        \/ Is("log") /\ SetLog(ev.op[2])
        \/ Is("import") /\ UNCHANGED vars
Done == i = Len(Trace) => Emit("DONE", i)
TInit == Init /\ i = 1
TNext == i <= Len(Trace) /\ Step /\ Observed /\ i' = i + 1 /\ Done
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
