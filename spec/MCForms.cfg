SPECIFICATION Spec
CONSTANTS
  Args = {1, 2}
  Vals = {0, 1, 9, 60, 100}
  MaxAsks = 2
  Late = FALSE
  Borrow = FALSE
INVARIANT AnswersOK EmitForms
