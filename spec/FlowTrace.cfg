SPECIFICATION TSpec
CONSTANTS
  Unit = 10000000
  MaxLayers = 20
  Tol = 40
