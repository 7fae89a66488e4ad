SPECIFICATION GSpec
CONSTANTS
  Dirs <- many
  MaxSteps = 7
INVARIANT WellFormed SeenOK CoupledOK EmitHist
