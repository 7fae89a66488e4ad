SPECIFICATION GSpec
CONSTANTS
  Sizes <- genSizes
  MaxEntry = 2
  MaxSteps = 4
  MaxArea = 6
  Kinds <- SymKinds
  Explicit = FALSE
INVARIANT PeriodOK AreaOK PhaseOK AlongOK EmitHist
