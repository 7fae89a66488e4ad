SPECIFICATION TSpec
CONSTANTS
  Uni = {1, 2}
  Pat = {3, 4}
  MaxD = 100
  MaxLen = 100
  MaxSteps = 100
  MaxInit = 0
  Tol = 20
