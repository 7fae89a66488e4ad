SPECIFICATION Spec
CONSTANTS
  MaxLayers = 3
  Kaps <- cKaps
  Qs <- cQs
  SubQs <- cSubQs
  Phases = {1, 2, 3, 4, 6}
  Lim = 150
  WithGrad = FALSE
CONSTRAINT Bounded
INVARIANT Energy Passive Total Flux EmitCase
PROPERTY HalfWaveOK
