SPECIFICATION Spec
CONSTANTS
  Steps = 0
  Random = FALSE
INVARIANT TotalOK FinerOK FewerOK PartsOK DimOK
