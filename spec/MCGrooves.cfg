SPECIFICATION GSpec
CONSTANTS
  Dirs <- few
  MaxSteps = 12
VIEW View
INVARIANT WellFormed SeenOK CoupledOK
