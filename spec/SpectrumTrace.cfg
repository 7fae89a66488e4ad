SPECIFICATION TSpec
CONSTANTS
  Unit = 100000
  Tol = 5
