SPECIFICATION Spec
INVARIANT EmitRun
