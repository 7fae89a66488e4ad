SPECIFICATION GSpec
CONSTANTS
  Sizes <- mcSizes
  MaxEntry = 2
  MaxSteps = 2
  MaxArea = 4
  Kinds <- AllKinds
  Explicit = TRUE
VIEW vars
INVARIANT MapOK PeriodOK AreaOK PhaseOK AlongOK
