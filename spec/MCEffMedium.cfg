SPECIFICATION Spec
CONSTANTS
  Values <- few
  Iso = FALSE
  MaxPoints = 3
INVARIANT WholeOK WienerOK ClassicOK TraceOK UniformOK
