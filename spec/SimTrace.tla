------------------------------ MODULE SimTrace ------------------------------
(* Validates recorded histories of layers and simulations against Sim.       *)
EXTENDS Sim, Emit, IOUtils
VARIABLE i
tvars == <<vars, i>>
Trace == ndJsonDeserialize(IOEnv.TRACE_DIR \o "/trace.ndjson")
ev == Trace[i]
Is(name) == i <= Len(Trace) /\ ev.ev = name
cKind == [o \in Base |-> IF o \in {1, 2} THEN "u" ELSE IF o = 5 THEN "m" ELSE "p"]
Bad(clause) == Emit("BAD", [line |-> i, clause |-> clause])
Clause(name, ok) == IF ok THEN TRUE ELSE Bad(name)
Started == Clause("no answer", ev.err = "")

Begin == /\ Is("begin")
         /\ obj' = [o \in Base |-> [eps |-> 0, d |-> 0, kind |-> Kind[o], org |-> o]]
         /\ modes' = [o \in AllObj |-> None] /\ by' = [o \in AllObj |-> "none"]
         /\ sim' = [s \in Sims |-> NoSim] /\ dirty' = [s \in Sims |-> {}] /\ ans' = NoAns
CopyEv == Is("copy") /\ Copy(ev.args[1], ev.args[2], ev.args[3]) /\ Started
BuildEv == Is("build") /\ Build(ev.args[1], ev.args[2]) /\ Started
SetDEv == Is("setd") /\ SetD(ev.args[1], ev.args[2]) /\ Started
SetEEv == Is("sete") /\ SetE(ev.args[1], ev.args[2]) /\ Started
ResetEv == Is("reset") /\ Reset(ev.args[1], ev.args[2]) /\ Started
SpoilEv == Is("spoil") /\ Spoil(ev.args[1]) /\ Started
QueryEv ==
  /\ Is("query") /\ Query(ev.args[1], ev.args[2], ev.args[3], ev.args[4])
  /\ LET s == ev.args[1]
         cur == Current(s)
     IN IF dirty[s] # {} THEN TRUE
        ELSE IF ev.err # "" THEN Bad("no answer")
        ELSE Clause("answer of a fresh simulation", \E k \in DOMAIN ev.match : ev.match[k] = cur)
Done == i = Len(Trace) => Emit("DONE", i)
TInit == Init /\ i = 1
TNext == /\ i <= Len(Trace)
         /\ (Begin \/ CopyEv \/ BuildEv \/ SetDEv \/ SetEEv \/ SpoilEv \/ ResetEv \/ QueryEv)
         /\ i' = i + 1 /\ Done
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
