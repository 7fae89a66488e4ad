SPECIFICATION Spec
CONSTANTS
  Points = {1, 2}
  Vals = {0, 2}
  MaxEvals = 2
INVARIANT LevelsOK AnswerOK StopOK ShownOK
PROPERTY EndsOK
