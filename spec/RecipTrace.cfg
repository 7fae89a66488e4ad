SPECIFICATION TSpec
CONSTANTS
  Tol = 30
