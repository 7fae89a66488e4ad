SPECIFICATION Spec
CONSTANTS
  MaxOps = 4
  Consts = {2, 3}
  Points <- points
  Fault = "none"
INVARIANT ModesOK DifferencesOK
