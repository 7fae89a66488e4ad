SPECIFICATION Spec
CONSTANTS
  Kaps <- cKaps
  Qs <- cQs
  SubQs <- cSubQs
  Phases = {0, 1, 2, 3}
  MaxLayers = 3
  Lim = 120
CONSTRAINT Bounded
INVARIANT FluxOK ContinuousOK PowerOK OutgoingOK EmitCase
