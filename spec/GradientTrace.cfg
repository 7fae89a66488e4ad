SPECIFICATION TSpec
CONSTANTS
  Tol = 60
  Rel = 20000
  NullTol = 5
