SPECIFICATION Spec
CONSTANTS
  Bases <- cBases
  MaxN = 26
  Box = 7
INVARIANT ZerothOK NumberOK CentralOK EquivOK AnswerOK EmitCase
