SPECIFICATION Spec
CONSTANTS
  Sizes <- genSizes
  Levels = {0, 1, 2, 3, 5, 6, 7, 8}
  Widths = {0, 1, 2}
  Edits = 12
  Materials <- mats
INVARIANT EmitDensity
