SPECIFICATION Spec
CONSTANTS
  MaxLayers = 4
  Thick = {0, 2}
  Gaps = {0, 1}
  Nulls = {0, 3}
  MaxPeriods = 2
INVARIANT DrawnOK ApartOK SamePlaceOK SolidOK EmitScene
