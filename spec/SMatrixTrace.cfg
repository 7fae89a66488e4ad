SPECIFICATION TSpec
CONSTANTS
  Kaps = {}
  Qs = {}
  SubQs = {}
  Phases = {}
  MaxLen = 9
  Lim = 100000
  Tol = 5
