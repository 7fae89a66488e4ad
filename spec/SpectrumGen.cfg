SPECIFICATION Spec
CONSTANTS
  Sizes <- genSizes
  Values <- genValues
  Edits = 9
INVARIANT EmitPattern
