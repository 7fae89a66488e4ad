SPECIFICATION TSpec
CONSTANTS
  MaxLayers = 3
  Thick = {0}
  Gaps = {0}
  Nulls = {0}
  MaxPeriods = 1
