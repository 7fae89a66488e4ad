------------------------------ MODULE MCThreads ------------------------------
EXTENDS Threads, Emit
EmitSchedule == Finished => Emit("SCHED", slices)
==============================================================================
