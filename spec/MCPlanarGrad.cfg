SPECIFICATION Spec
CONSTANTS
  MaxLayers = 3
  Kaps <- gKaps
  Qs <- gQs
  SubQs <- gSubQs
  Phases = {1, 2, 3, 5}
  Lim = 28
  WithGrad = TRUE
CONSTRAINT Bounded
INVARIANT Energy Passive Total Flux EmitCase
PROPERTY HalfWaveOK
