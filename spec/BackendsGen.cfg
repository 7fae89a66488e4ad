SPECIFICATION Spec
CONSTANTS
  Names <- names
  Scenes = {0, 1, 2, 3, 4, 5, 6, 7}
  Steps = 60
  Random = TRUE
  Fault = "none"
INVARIANT EmitLog
