SPECIFICATION Spec
CONSTANTS
  Quanta = 1
  MaxLayers = 3
  MaxOrder = 1
  MaxSteps = 4
INVARIANT BalanceOK PlainOK QuantaOK NormalOK EmitKinds
