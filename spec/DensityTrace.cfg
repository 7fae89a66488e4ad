SPECIFICATION TSpec
CONSTANTS
  Digits = 6
  Tol = 5
