SPECIFICATION Spec
CONSTANTS
  Starts <- genStarts
  Vals <- genVals
  Pars <- genPars
INVARIANT InsideOK NewOK SortedOK FloorOK EmitRun
