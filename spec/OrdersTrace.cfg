SPECIFICATION TSpec
CONSTANTS
  Ords = {}
  Comp = {}
  MaxAsk = 100
  Tol = 30
