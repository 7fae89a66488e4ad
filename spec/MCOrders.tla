------------------------------ MODULE MCOrders -------------------------------
EXTENDS Orders, Emit
EmitCase == Len(asked) = MaxAsk => Emit("ASK", asked)
(* the questions do not depend on the table: enumerate them on one table *)
View1 == <<asked, IF Len(asked) < 2 THEN amp ELSE <<>>, IF Len(asked) < 2 THEN prop ELSE <<>>>>
=============================================================================
