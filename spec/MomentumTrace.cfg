SPECIFICATION TSpec
CONSTANTS
  Tol = 60
