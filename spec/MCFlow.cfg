SPECIFICATION Spec
CONSTANTS
  Unit = 3
  MaxLayers = 4
VIEW MCView
INVARIANT LedgerOK LosslessOK AbsorbOK EmitKinds
PROPERTY MonotoneOK KeepOK
