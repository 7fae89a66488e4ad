SPECIFICATION Spec
CONSTANTS
  MaxTasks = 5
  MaxWorkers = 3
INVARIANT OnceOK CapOK AllOK RaiseOK LiveOK EmitRun
