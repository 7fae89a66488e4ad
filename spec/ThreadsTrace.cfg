SPECIFICATION TSpec
CONSTANTS
  Tol = 3
