SPECIFICATION Spec
CONSTANTS
  Starts <- mcStarts
  Vals <- mcVals
  Pars <- mcPars
VIEW vars
INVARIANT KeepOK InsideOK NewOK SortedOK FloorOK
PROPERTY Ends
