SPECIFICATION Spec
CONSTANTS
  Kaps <- cKaps
  Qs <- cQs
  SubQs <- cSubQs
  Phases = {0, 1, 2}
  MaxLen = 4
  Lim = 60
CONSTRAINT Ok
INVARIANT Cut Energy EmitCase
