SPECIFICATION Spec
CONSTANTS
  Harms <- cHarms
  Depths = 2
  Comps = 1
  Grids <- cGrids
  Vals <- cVals
  Ids = {"index", "negative", "name", "object"}
INVARIANT SliceOK DepthOK IdOK OriginOK CoarseOK
