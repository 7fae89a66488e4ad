SPECIFICATION Spec
CONSTANTS
  MaxN = 2
  MaxSteps = 3
  Kinds = {"rotate", "over", "wind", "swing"}
VIEW Viewed
INVARIANT WaveOK SuperposedOK
