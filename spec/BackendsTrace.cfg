SPECIFICATION TSpec
CONSTANTS
  Unit = 1000000
  Tol64 = 3
  Tol32 = 2000
