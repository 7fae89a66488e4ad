SPECIFICATION Spec
CONSTANTS
  Atts = {0, 5, 9, 30, 180, 400}
  MaxLayers = 4
  Range = 307
  Digits = 16
  Transfer = FALSE
INVARIANT BoundOK ThroughOK SeenOK FieldOK EmitStack
