SPECIFICATION TSpec
CONSTANTS
  MaxLayers = 12
  Kaps = {}
  Qs = {}
  SubQs = {}
  Phases = {}
  Lim = 0
  Tol = 5
  WithGrad = TRUE
