SPECIFICATION GSpec
CONSTANTS
  Uni = {1, 2}
  Pat = {3, 4}
  MaxD = 2
  MaxLen = 4
  MaxSteps = 2
  MaxInit = 2
VIEW vars
INVARIANT SameStructure SameThickness NFStable
