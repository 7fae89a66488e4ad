SPECIFICATION Spec
CONSTANTS
  Sizes <- mcSizes
  Values <- mcValues
  Edits = 2
INVARIANT MeanOK OnceOK FullOK ShiftOK RealOK
