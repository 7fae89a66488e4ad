SPECIFICATION Spec
CONSTANTS
  MaxN = 2
  MaxSteps = 6
  Kinds = {"rotate", "over", "wind", "swing"}
INVARIANT WaveOK SuperposedOK EmitHist
