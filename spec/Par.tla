-------------------------------- MODULE Par ----------------------------------
(* A loop over arguments run by workers (C16).  Arguments are handed out in  *)
(* order, finish in any order and may fail; the results are those of the     *)
(* sequential calls, in the order of the arguments.                          *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS MaxTasks, MaxWorkers
VARIABLES args,     \* the arguments, a sequence
          fails,    \* positions that fail
          workers,
          started,  \* positions handed out, in order
          finished, \* positions finished, in order
          outcome   \* "" while running, "results", or "exception"
vars == <<args, fails, workers, started, finished, outcome>>
Rng(q) == {q[k] : k \in DOMAIN q}
Running == Rng(started) \ Rng(finished)
Failed == Rng(finished) \cap fails
Init == /\ \E n \in 0..MaxTasks : args = [k \in 1..n |-> k] /\ fails \in SUBSET (1..n)
        /\ workers \in 1..MaxWorkers /\ started = <<>> /\ finished = <<>> /\ outcome = ""
(* a free worker takes the next argument at once *)
CanStart == Cardinality(Running) < workers /\ Len(started) < Len(args) /\ Failed = {}
Start(k) == /\ outcome = "" /\ CanStart /\ k = Len(started) + 1
            /\ started' = Append(started, k) /\ UNCHANGED <<args, fails, workers, finished, outcome>>
Finish(k) == /\ outcome = "" /\ ~CanStart /\ Failed = {} /\ k \in Running
             /\ finished' = Append(finished, k) /\ UNCHANGED <<args, fails, workers, started, outcome>>
Return == /\ outcome = ""
          /\ \/ Len(finished) = Len(args) /\ Failed = {} /\ outcome' = "results"
             \/ Failed # {} /\ outcome' = "exception"
          /\ UNCHANGED <<args, fails, workers, started, finished>>
Next == (\E k \in DOMAIN args : Start(k) \/ Finish(k)) \/ Return
Spec == Init /\ [][Next]_vars
---------------------------------------------------------------------------
OnceOK == Cardinality(Rng(started)) = Len(started) /\ Cardinality(Rng(finished)) = Len(finished) /\ Rng(finished) \subseteq Rng(started)
CapOK == Cardinality(Running) <= workers
AllOK == outcome = "results" => Rng(finished) = DOMAIN args /\ Failed = {}
RaiseOK == outcome = "exception" => Failed # {}
(* the loop ends: no state is stuck before the outcome *)
LiveOK == outcome = "" => ENABLED Next
=============================================================================
