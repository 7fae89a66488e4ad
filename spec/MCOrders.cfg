SPECIFICATION Spec
CONSTANTS
  Ords = {1, 2}
  Comp = {0, 1}
  MaxAsk = 3
VIEW View1
INVARIANT TotalsOK DictOK EvanescentOK AgreeOK EmitCase
