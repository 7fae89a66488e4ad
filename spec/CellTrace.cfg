SPECIFICATION TSpec
CONSTANTS
  MaxEntry = 8
  MaxSteps = 4
  Dens = {1}
