SPECIFICATION Spec
CONSTANTS
  Layers = 2
  Orders = {0}
  MaxSteps = 7
  Weights = {0, 1, 2}
  Choices = 0
  Permuting = FALSE
INVARIANT ReciprocalOK LosslessOK DrainedOK
