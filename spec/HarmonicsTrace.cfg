SPECIFICATION TSpec
CONSTANTS
  Bases = {}
  MaxN = 0
  Box = 0
  Tol = 20
