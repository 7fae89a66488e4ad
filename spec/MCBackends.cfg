SPECIFICATION Spec
CONSTANTS
  Names <- names
  Scenes = {0, 1}
  Steps = 4
  Random = FALSE
  Fault = "none"
INVARIANT SameOK OpenOK
