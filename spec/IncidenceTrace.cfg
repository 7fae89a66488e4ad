SPECIFICATION TSpec
CONSTANTS
  Tol = 40
