SPECIFICATION TSpec
CONSTANTS
  Harms = {}
  Depths = 3
  Comps = 3
  Grids = {}
  Ids = {}
  Vals = {}
  Tol = 25
