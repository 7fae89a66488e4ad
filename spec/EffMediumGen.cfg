SPECIFICATION Spec
CONSTANTS
  Values <- many
  Iso = TRUE
  MaxPoints = 4
INVARIANT WholeOK WienerOK ClassicOK TraceOK UniformOK EmitMedium
