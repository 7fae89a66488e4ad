SPECIFICATION TSpec
CONSTANTS
  Atts = {0}
  MaxLayers = 9
  Range = 307
  Digits = 16
  Transfer = FALSE
