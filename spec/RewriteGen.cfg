SPECIFICATION GSpec
CONSTANTS
  Uni = {1, 2}
  Pat = {3, 4}
  MaxD = 3
  MaxLen = 6
  MaxSteps = 7
  MaxInit = 3
INVARIANT SameStructure SameThickness NFStable EmitHist
