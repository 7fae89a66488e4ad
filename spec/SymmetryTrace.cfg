SPECIFICATION TSpec
CONSTANTS
  Sizes = {}
  MaxEntry = 9
  MaxSteps = 99
  MaxArea = 99
  Kinds = {}
  Explicit = FALSE
  Tol = 20
