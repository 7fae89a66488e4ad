------------------------------ MODULE MCConfig ------------------------------
EXTENDS Config, Emit
St == [sel |-> sel, prec |-> prec, log |-> log, flags |-> flags, forced |-> forced]
Edge(op) == Emit("EDGE", [from |-> St, op |-> op, to |-> [sel |-> sel', prec |-> prec', log |-> log', flags |-> flags', forced |-> forced']])
MInit == Init /\ Emit("START", St)
(* GPU requests with jax are a known finding: they are replayed separately *)
MNext == \/ \E b \in Available \cup {"bogus", ""} : SetBackend(b) /\ Edge(<<"backend", b>>)
         \/ \E y \in BOOLEAN : Use32(y) /\ Edge(<<"use32", y>>)
         \/ \E y \in BOOLEAN : (sel # "jax" \/ ~y) /\ UseGpu(y) /\ Edge(<<"gpu", y>>)
         \/ \E l \in Levels \cup {"LOUD"} : SetLog(l) /\ Edge(<<"log", l>>)
MSpec == MInit /\ [][MNext]_vars
=============================================================================
