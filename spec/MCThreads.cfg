SPECIFICATION Spec
CONSTANTS
  Tasks = {1, 2}
  Length = 6
  MaxSlices = 4
  Shared = FALSE
INVARIANT AloneOK EmitSchedule
