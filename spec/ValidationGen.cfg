SPECIFICATION Spec
CONSTANTS
  Steps = 12
  Random = TRUE
INVARIANT EmitSession
