SPECIFICATION TSpec
CONSTANTS
  Kaps = {}
  Qs = {}
  SubQs = {}
  Phases = {}
  MaxLayers = 20
  Lim = 1000
  Tol = 4
  TolW = 20
