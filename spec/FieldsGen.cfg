SPECIFICATION Spec
CONSTANTS
  Harms <- cHarms
  Depths = 3
  Comps = 3
  Grids <- cGrids
  Vals <- cVals
  Ids = {"index", "negative", "name", "object"}
INVARIANT EmitReq
